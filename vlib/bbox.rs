// Polynomials of degree <= 3 with derivative al t^2 + be t + ga: extrema over [0,1].
pub open spec fn dpl(al: real, be: real, ga: real, t: real) -> real { al * (t * t) + be * t + ga }
pub open spec fn pl(k: real, ga: real, be: real, al: real, t: real) -> real { k + ga * t + (be / 2real) * (t * t) + (al / 3real) * (t * (t * t)) }
proof fn dist6(y: real, u: real, a: real, b: real, c: real, d: real, e: real, g: real)
    requires 6real * u == 2real * a + 2real * b + 2real * c + 3real * d + 3real * e + 6real * g,
    ensures 6real * (y * u) == 2real * (y * a) + 2real * (y * b) + 2real * (y * c) + 3real * (y * d) + 3real * (y * e) + 6real * (y * g),
{
    let v = 6real * u;
    assert(y * v == 6real * (y * u)) by(nonlinear_arith) requires v == 6real * u;
    assert(y * v == 2real * (y * a) + 2real * (y * b) + 2real * (y * c) + 3real * (y * d) + 3real * (y * e) + 6real * (y * g)) by(nonlinear_arith)
        requires v == 2real * a + 2real * b + 2real * c + 3real * d + 3real * e + 6real * g;
}
proof fn div_out(a: real, b: real, k: real)
    requires k != 0real,
    ensures (a / k) * b == (a * b) / k,
{
    let q = a / k;
    assert(q * k == a) by(nonlinear_arith) requires k != 0real, q == a / k;
    assert((q * b) * k == a * b) by(nonlinear_arith) requires q * k == a;
    let z = q * b;
    let w = a * b;
    assert(z == w / k) by(nonlinear_arith) requires z * k == w, k != 0real;
}
/// Simpson's rule is exact
pub proof fn simpson(k: real, ga: real, be: real, al: real, x: real, y: real)
    ensures pl(k, ga, be, al, y) - pl(k, ga, be, al, x) == ((y - x) / 6real) * (dpl(al, be, ga, x) + 4real * dpl(al, be, ga, (x + y) / 2real) + dpl(al, be, ga, y)),
{
    let m = (x + y) / 2real;
    let (b2, a3) = (be / 2real, al / 3real);
    let h = y - x;
    let (p, q, r) = (x * x, x * y, y * y);
    let (ap, aq, ar, bx, by) = (al * p, al * q, al * r, be * x, be * y);
    assert(4real * (m * m) == p + 2real * q + r) by(nonlinear_arith) requires 2real * m == x + y, p == x * x, q == x * y, r == y * y;
    assert(al * (4real * (m * m)) == ap + 2real * aq + ar) by(nonlinear_arith) requires 4real * (m * m) == p + 2real * q + r, ap == al * p, aq == al * q, ar == al * r;
    assert(4real * (al * (m * m)) == al * (4real * (m * m))) by(nonlinear_arith);
    assert(2real * (be * m) == bx + by) by(nonlinear_arith) requires 2real * m == x + y, bx == be * x, by == be * y;
    let s = dpl(al, be, ga, x) + 4real * dpl(al, be, ga, m) + dpl(al, be, ga, y);
    assert(s == 2real * ap + 2real * aq + 2real * ar + 3real * bx + 3real * by + 6real * ga);
    let u = ap / 3real + aq / 3real + ar / 3real + bx / 2real + by / 2real + ga;
    assert(s == 6real * u);
    assert((h / 6real) * (6real * u) == h * u) by(nonlinear_arith);
    let (x3, y3) = (x * (x * x), y * (y * y));
    assert(y * ap == x * aq) by(nonlinear_arith) requires ap == al * (x * x), aq == al * (x * y);
    assert(y * aq == x * ar) by(nonlinear_arith) requires ar == al * (y * y), aq == al * (x * y);
    assert(x * ap == al * x3) by(nonlinear_arith) requires ap == al * (x * x), x3 == x * (x * x);
    assert(y * ar == al * y3) by(nonlinear_arith) requires ar == al * (y * y), y3 == y * (y * y);
    assert(y * bx == x * by) by(nonlinear_arith) requires bx == be * x, by == be * y;
    assert(x * bx == be * p) by(nonlinear_arith) requires bx == be * x, p == x * x;
    assert(y * by == be * r) by(nonlinear_arith) requires by == be * y, r == y * y;
    assert(h * u == y * u - x * u) by(nonlinear_arith) requires h == y - x;
    let (w1, w2) = (ap + aq + ar, bx + by);
    dist6(y, u, ap, aq, ar, bx, by, ga); dist6(x, u, ap, aq, ar, bx, by, ga);
    div_out(be, p, 2real); div_out(be, r, 2real); div_out(al, x3, 3real); div_out(al, y3, 3real);
    assert(ga * x == x * ga) by(nonlinear_arith); assert(ga * y == y * ga) by(nonlinear_arith);
}
/// on [u, v] the derivative has one sign
pub open spec fn one_sign(al: real, be: real, ga: real, u: real, v: real) -> bool {
    (forall|x: real| u <= x <= v ==> #[trigger] dpl(al, be, ga, x) >= 0real) || (forall|x: real| u <= x <= v ==> #[trigger] dpl(al, be, ga, x) <= 0real)
}
pub proof fn mono(k: real, ga: real, be: real, al: real, x: real, y: real, u: real, v: real)
    requires u <= x <= y <= v,
    ensures (forall|z: real| u <= z <= v ==> #[trigger] dpl(al, be, ga, z) >= 0real) ==> pl(k, ga, be, al, x) <= pl(k, ga, be, al, y),
        (forall|z: real| u <= z <= v ==> #[trigger] dpl(al, be, ga, z) <= 0real) ==> pl(k, ga, be, al, x) >= pl(k, ga, be, al, y),
{
    simpson(k, ga, be, al, x, y);
    let m = (x + y) / 2real;
    let h = (y - x) / 6real;
    let s = dpl(al, be, ga, x) + 4real * dpl(al, be, ga, m) + dpl(al, be, ga, y);
    assert(u <= m <= v);
    if forall|z: real| u <= z <= v ==> #[trigger] dpl(al, be, ga, z) >= 0real { assert(h * s >= 0real) by(nonlinear_arith) requires h >= 0real, s >= 0real; }
    if forall|z: real| u <= z <= v ==> #[trigger] dpl(al, be, ga, z) <= 0real { assert(h * s <= 0real) by(nonlinear_arith) requires h >= 0real, s <= 0real; }
}
/// a value between the ends of a monotone piece
pub proof fn between(k: real, ga: real, be: real, al: real, u: real, t: real, v: real, lo: real, hi: real)
    requires u <= t <= v, one_sign(al, be, ga, u, v), lo <= pl(k, ga, be, al, u) <= hi, lo <= pl(k, ga, be, al, v) <= hi,
    ensures lo <= pl(k, ga, be, al, t) <= hi,
{ mono(k, ga, be, al, u, t, u, v); mono(k, ga, be, al, t, v, u, v); }
pub proof fn hull(k: real, ga: real, be: real, al: real, r0: real, r1: real, lo: real, hi: real, t: real)
    requires 0real <= t <= 1real, r0 <= r1,
        r0 >= 0real ==> one_sign(al, be, ga, 0real, r0), one_sign(al, be, ga, r0, r1), r1 <= 1real ==> one_sign(al, be, ga, r1, 1real),
        r0 > 1real ==> one_sign(al, be, ga, 0real, 1real), r1 < 0real ==> one_sign(al, be, ga, 0real, 1real),
        lo <= pl(k, ga, be, al, 0real) <= hi, lo <= pl(k, ga, be, al, 1real) <= hi,
        0real < r0 < 1real ==> lo <= pl(k, ga, be, al, r0) <= hi, 0real < r1 < 1real ==> lo <= pl(k, ga, be, al, r1) <= hi,
    ensures lo <= pl(k, ga, be, al, t) <= hi,
{
    let u = if t >= r1 { if r1 > 0real { r1 } else { 0real } } else if t >= r0 { if r0 > 0real { r0 } else { 0real } } else { 0real };
    let v = if t < r0 { if r0 < 1real { r0 } else { 1real } } else if t < r1 { if r1 < 1real { r1 } else { 1real } } else { 1real };
    assert(u <= t <= v);
    if t < 1real && t > 0real {
        assert(one_sign(al, be, ga, u, v));
        between(k, ga, be, al, u, t, v, lo, hi);
    }
}
/// the list of roots the code finds for al t^2 + be t + ga
pub open spec fn roots2<S: Scalar>(s: Seq<S>, al: real, be: real, ga: real) -> bool {
    s.len() <= 2
    && (rabs(al) < eps() && rabs(be) >= eps() ==> s.len() == 1 && s[0].val() == -ga / be)
    && (rabs(al) >= eps() && be * be - (al * ga) * 4real > 0real ==> s.len() == 2 && al * (s[0].val() + s[1].val()) == -be && al * (s[0].val() * s[1].val()) == ga)
}
/// the list of roots the code finds for be t + ga
pub open spec fn roots1<S: Scalar>(s: Seq<S>, be: real, ga: real) -> bool { s.len() <= 1 && (rabs(be) >= eps() ==> s.len() == 1 && s[0].val() == -ga / be) }
/// q is the stable root: q^2 + b q + a c == 0
pub proof fn root_pair(al: real, be: real, ga: real, s: real, q: real)
    requires al != 0real, s * s == be * be - (al * ga) * 4real, s > 0real, be < 0real && q == (-be + s) / 2real || be >= 0real && q == (-be - s) / 2real,
    ensures q != 0real, al * (ga / q + q / al) == -be, al * ((ga / q) * (q / al)) == ga, al * (q / al + ga / q) == -be, al * ((q / al) * (ga / q)) == ga,
{
    let (x, y) = (ga / q, q / al);
    assert(x * q == ga) by(nonlinear_arith) requires q != 0real, x == ga / q;
    assert(y * al == q) by(nonlinear_arith) requires al != 0real, y == q / al;
    assert(q * q + be * q + al * ga == 0real) by(nonlinear_arith)
        requires s * s == be * be - (al * ga) * 4real, 2real * q == -be + s || 2real * q == -be - s;
    assert(q * (q + be + al * x) == q * q + be * q + al * ga) by(nonlinear_arith) requires x * q == ga;
    assert(q + be + al * x == 0real) by(nonlinear_arith) requires q * (q + be + al * x) == 0real, q != 0real;
    assert(al * (x + y) == al * x + q) by(nonlinear_arith) requires y * al == q;
    assert(al * (x * y) == x * q) by(nonlinear_arith) requires y * al == q;
    assert(x + y == y + x && x * y == y * x) by(nonlinear_arith);
}
pub open spec fn c01(t: real, lo: real, hi: real, k: real, ga: real, be: real, al: real) -> bool { 0real < t < 1real ==> lo <= pl(k, ga, be, al, t) <= hi }
pub proof fn sign_two(al: real, be: real, ga: real, r0: real, r1: real, x: real)
    requires al * (r0 + r1) == -be, al * (r0 * r1) == ga,
    ensures dpl(al, be, ga, x) == al * ((x - r0) * (x - r1)),
{
    let (w, p, e, g) = ((x - r0) * (x - r1), x * x, r0 + r1, r0 * r1);
    assert(w == p - e * x + g) by(nonlinear_arith) requires w == (x - r0) * (x - r1), p == x * x, e == r0 + r1, g == r0 * r1;
    let ex = e * x;
    assert(al * w == al * p - al * ex + al * g) by(nonlinear_arith) requires w == p - ex + g;
    assert(al * ex == (al * e) * x) by(nonlinear_arith) requires ex == e * x;
    assert((-be) * x == -(be * x)) by(nonlinear_arith);
}
pub proof fn pieces_two(al: real, be: real, ga: real, r0: real, r1: real)
    requires al * (r0 + r1) == -be, al * (r0 * r1) == ga, r0 <= r1,
    ensures forall|u: real, v: real| u <= v <= r0 ==> #[trigger] one_sign(al, be, ga, u, v), forall|u: real, v: real| r1 <= u <= v ==> #[trigger] one_sign(al, be, ga, u, v), one_sign(al, be, ga, r0, r1),
{
    assert forall|x: real| (x <= r0 || x >= r1 ==> (al >= 0real ==> #[trigger] dpl(al, be, ga, x) >= 0real) && (al <= 0real ==> dpl(al, be, ga, x) <= 0real))
        && (r0 <= x <= r1 ==> (al >= 0real ==> dpl(al, be, ga, x) <= 0real) && (al <= 0real ==> dpl(al, be, ga, x) >= 0real)) by {
        sign_two(al, be, ga, r0, r1, x);
        let w = (x - r0) * (x - r1);
        if x <= r0 || x >= r1 { assert(w >= 0real) by(nonlinear_arith) requires w == (x - r0) * (x - r1), x <= r0 || x >= r1, r0 <= r1; }
        if r0 <= x <= r1 { assert(w <= 0real) by(nonlinear_arith) requires w == (x - r0) * (x - r1), r0 <= x <= r1; }
        assert(al >= 0real && w >= 0real ==> al * w >= 0real) by(nonlinear_arith);
        assert(al >= 0real && w <= 0real ==> al * w <= 0real) by(nonlinear_arith);
        assert(al <= 0real && w >= 0real ==> al * w <= 0real) by(nonlinear_arith);
        assert(al <= 0real && w <= 0real ==> al * w >= 0real) by(nonlinear_arith);
    }
}
/// linear derivative
pub proof fn pieces_one(be: real, ga: real, r: real)
    requires be * r == -ga,
    ensures forall|u: real, v: real| u <= v <= r ==> #[trigger] one_sign(0real, be, ga, u, v), forall|u: real, v: real| r <= u <= v ==> #[trigger] one_sign(0real, be, ga, u, v),
{
    assert forall|x: real| (x <= r ==> (be >= 0real ==> #[trigger] dpl(0real, be, ga, x) <= 0real) && (be <= 0real ==> dpl(0real, be, ga, x) >= 0real))
        && (r <= x ==> (be >= 0real ==> dpl(0real, be, ga, x) >= 0real) && (be <= 0real ==> dpl(0real, be, ga, x) <= 0real)) by {
        assert(0real * (x * x) == 0real);
        assert(be * (x - r) == be * x + ga) by(nonlinear_arith) requires be * r == -ga;
        let w = x - r;
        assert(be >= 0real && w >= 0real ==> be * w >= 0real) by(nonlinear_arith);
        assert(be >= 0real && w <= 0real ==> be * w <= 0real) by(nonlinear_arith);
        assert(be <= 0real && w >= 0real ==> be * w <= 0real) by(nonlinear_arith);
        assert(be <= 0real && w <= 0real ==> be * w >= 0real) by(nonlinear_arith);
    }
}
/// no real root, or a double one
pub proof fn pieces_none(al: real, be: real, ga: real, u: real, v: real)
    requires al != 0real, be * be - (al * ga) * 4real <= 0real,
    ensures one_sign(al, be, ga, u, v),
{
    assert forall|x: real| al * #[trigger] dpl(al, be, ga, x) >= 0real by {
        let d = dpl(al, be, ga, x);
        let (y, z) = (al * x, 2real * (al * x) + be);
        assert(al * (al * (x * x)) == y * y) by(nonlinear_arith) requires y == al * x;
        assert(al * (be * x) == y * be) by(nonlinear_arith) requires y == al * x;
        let (v1, v2) = (al * (x * x), be * x);
        assert(al * d == al * v1 + al * v2 + al * ga) by(nonlinear_arith) requires d == v1 + v2 + ga;
        assert(z * z == 4real * (y * y) + 4real * (y * be) + be * be) by(nonlinear_arith) requires z == 2real * y + be;
        assert(4real * (al * d) == z * z - (be * be - (al * ga) * 4real));
        assert(z * z >= 0real) by(nonlinear_arith);
    }
    if al > 0real { assert forall|x: real| u <= x <= v implies #[trigger] dpl(al, be, ga, x) >= 0real by { let d = dpl(al, be, ga, x); assert(al * d >= 0real); assert(d >= 0real) by(nonlinear_arith) requires al * d >= 0real, al > 0real; } }
    else { assert forall|x: real| u <= x <= v implies #[trigger] dpl(al, be, ga, x) <= 0real by { let d = dpl(al, be, ga, x); assert(al * d >= 0real); assert(d <= 0real) by(nonlinear_arith) requires al * d >= 0real, al < 0real; } }
}
/// dropping the highest term
pub proof fn drop_cube(k: real, ga: real, be: real, al: real, t: real)
    requires 0real <= t <= 1real, rabs(al) < eps(),
    ensures rabs(pl(k, ga, be, al, t) - pl(k, ga, be, 0real, t)) <= eps() / 3real,
{
    let w = t * (t * t);
    assert(0real <= w <= 1real) by(nonlinear_arith) requires w == t * (t * t), 0real <= t <= 1real;
    let c = al / 3real;
    assert(-(eps() / 3real) <= c * w <= eps() / 3real) by(nonlinear_arith) requires 0real <= w <= 1real, -(eps() / 3real) <= c <= eps() / 3real, eps() > 0real;
    assert((0real / 3real) * w == 0real) by(nonlinear_arith);
}
pub proof fn drop_square(k: real, ga: real, be: real, t: real, lo: real, hi: real)
    requires 0real <= t <= 1real, rabs(be) < eps(), lo <= pl(k, ga, be, 0real, 0real) <= hi, lo <= pl(k, ga, be, 0real, 1real) <= hi,
    ensures lo - eps() / 8real <= pl(k, ga, be, 0real, t) <= hi + eps() / 8real,
{
    let b2 = be / 2real;
    let (p0, p1, pt) = (pl(k, ga, be, 0real, 0real), pl(k, ga, be, 0real, 1real), pl(k, ga, be, 0real, t));
    assert(p0 == k) by(nonlinear_arith) requires p0 == k + ga * 0real + b2 * (0real * 0real) + (0real / 3real) * (0real * (0real * 0real));
    assert(p1 == k + ga + b2) by(nonlinear_arith) requires p1 == k + ga * 1real + b2 * (1real * 1real) + (0real / 3real) * (1real * (1real * 1real));
    assert(pt == k + ga * t + b2 * (t * t)) by(nonlinear_arith) requires pt == k + ga * t + b2 * (t * t) + (0real / 3real) * (t * (t * t));
    let e = t * (1real - t);
    assert(0real <= e && 4real * e <= 1real) by(nonlinear_arith) requires e == t * (1real - t), 0real <= t <= 1real;
    assert(pt == p0 * (1real - t) + p1 * t - b2 * e) by(nonlinear_arith) requires pt == k + ga * t + b2 * (t * t), p0 == k, p1 == k + ga + b2, e == t * (1real - t);
    assert(lo <= p0 * (1real - t) + p1 * t <= hi) by(nonlinear_arith) requires lo <= p0 <= hi, lo <= p1 <= hi, 0real <= t <= 1real;
    assert(-(eps() / 8real) <= b2 * e <= eps() / 8real) by(nonlinear_arith) requires 0real <= e, 4real * e <= 1real, -(eps() / 2real) <= b2 <= eps() / 2real, eps() > 0real;
}
/// the box over the ends and the critical points in (0,1) contains every value, up to one machine epsilon
pub proof fn box2<S: Scalar>(k: real, ga: real, be: real, al: real, s: Seq<S>, lo: real, hi: real, t: real)
    requires 0real <= t <= 1real, roots2(s, al, be, ga),
        lo <= pl(k, ga, be, al, 0real) <= hi, lo <= pl(k, ga, be, al, 1real) <= hi,
        forall|j: int| 0 <= j < s.len() ==> c01((#[trigger] s[j]).val(), lo, hi, k, ga, be, al),
    ensures lo - eps() <= pl(k, ga, be, al, t) <= hi + eps(),
{
    if rabs(al) < eps() {
        let e = eps() / 3real;
        drop_cube(k, ga, be, al, 0real); drop_cube(k, ga, be, al, 1real); drop_cube(k, ga, be, al, t);
        if rabs(be) < eps() { drop_square(k, ga, be, t, lo - e, hi + e); }
        else {
            let r = s[0].val();
            assert(c01(r, lo, hi, k, ga, be, al));
            assert(be * r == -ga) by(nonlinear_arith) requires be != 0real, r == -ga / be;
            if 0real < r < 1real { drop_cube(k, ga, be, al, r); }
            pieces_one(be, ga, r);
            hull(k, ga, be, 0real, r, r, lo - e, hi + e, t);
        }
    } else if be * be - (al * ga) * 4real > 0real {
        let (a, b) = (s[0].val(), s[1].val());
        assert(c01(a, lo, hi, k, ga, be, al)); assert(c01(b, lo, hi, k, ga, be, al));
        assert(a + b == b + a && a * b == b * a) by(nonlinear_arith);
        if a <= b { pieces_two(al, be, ga, a, b); hull(k, ga, be, al, a, b, lo, hi, t); }
        else { pieces_two(al, be, ga, b, a); hull(k, ga, be, al, b, a, lo, hi, t); }
    } else {
        pieces_none(al, be, ga, 0real, 1real);
        between(k, ga, be, al, 0real, t, 1real, lo, hi);
    }
}
pub proof fn box1<S: Scalar>(k: real, ga: real, be: real, s: Seq<S>, lo: real, hi: real, t: real)
    requires 0real <= t <= 1real, roots1(s, be, ga),
        lo <= pl(k, ga, be, 0real, 0real) <= hi, lo <= pl(k, ga, be, 0real, 1real) <= hi,
        forall|j: int| 0 <= j < s.len() ==> c01((#[trigger] s[j]).val(), lo, hi, k, ga, be, 0real),
    ensures lo - eps() <= pl(k, ga, be, 0real, t) <= hi + eps(),
{
    if rabs(be) < eps() { drop_square(k, ga, be, t, lo, hi); }
    else {
        let r = s[0].val();
        assert(c01(r, lo, hi, k, ga, be, 0real));
        assert(be * r == -ga) by(nonlinear_arith) requires be != 0real, r == -ga / be;
        pieces_one(be, ga, r);
        hull(k, ga, be, 0real, r, r, lo, hi, t);
    }
}
/// the bounds contain the curve's coordinate i over [0,1] up to one machine epsilon, and the curve attains both
pub open spec fn attained(cv: Cv, i: int, v: real) -> bool { exists|t: real| 0real <= t <= 1real && v == #[trigger] cv(i, t) }
pub open spec fn box_ok(cv: Cv, i: int, lo: real, hi: real) -> bool {
    &&& attained(cv, i, lo) && attained(cv, i, hi)
    &&& forall|t: real| 0real <= t <= 1real ==> lo - eps() <= #[trigger] cv(i, t) <= hi + eps()
}
/// kp: the roots strictly inside (0,1); pre: the curve there and at both ends; fin: pre in order
pub open spec fn kept<S: Scalar>(kp: Seq<S>, rt: Seq<S>) -> bool {
    &&& forall|j: int| 0 <= j < kp.len() ==> 0real < (#[trigger] kp[j]).val() < 1real
    &&& forall|j: int| 0 <= j < rt.len() && 0real < (#[trigger] rt[j]).val() < 1real ==> kp.contains(rt[j])
}
pub open spec fn sorted_from<S: Scalar>(fin: Seq<S>, pre: Seq<S>) -> bool {
    &&& fin.len() == pre.len()
    &&& forall|i: int, j: int| 0 <= i <= j < fin.len() ==> (#[trigger] fin[i]).val() <= (#[trigger] fin[j]).val()
    &&& forall|i: int| 0 <= i < fin.len() ==> pre.contains(#[trigger] fin[i])
    &&& forall|i: int| 0 <= i < pre.len() ==> fin.contains(#[trigger] pre[i])
}
/// the values at the parameters kp, and at both ends of the interval; o of the ends come first
pub open spec fn images<S: Scalar>(pre: Seq<S>, kp: Seq<S>, cv: Cv, i: int, o: int) -> bool {
    let (a, b) = (if o == 0 { kp.len() as int } else { 0 }, if o == 2 { 1 } else { kp.len() as int + 1 });
    &&& pre.len() == kp.len() + 2 && 0 <= o <= 2
    &&& forall|j: int| o <= j < kp.len() + o ==> (#[trigger] pre[j]).val() == cv(i, kp[j - o].val())
    &&& (pre[a].val() == cv(i, 0real) && pre[b].val() == cv(i, 1real) || pre[a].val() == cv(i, 1real) && pre[b].val() == cv(i, 0real))
}
pub proof fn box_list<S: Scalar>(cv: Cv, i: int, k: real, ga: real, be: real, al: real, rt: Seq<S>, kp: Seq<S>, pre: Seq<S>, fin: Seq<S>, o: int)
    requires
        forall|t: real| #[trigger] cv(i, t) == pl(k, ga, be, al, t),
        al == 0real && roots1(rt, be, ga) || roots2(rt, al, be, ga),
        kept(kp, rt), images(pre, kp, cv, i, o), sorted_from(fin, pre),
    ensures box_ok(cv, i, fin[0].val(), fin[fin.len() - 1].val()),
{
    let n = fin.len();
    let (lo, hi) = (fin[0].val(), fin[n - 1].val());
    let (a, b) = (if o == 0 { kp.len() as int } else { 0 }, if o == 2 { 1 } else { kp.len() as int + 1 });
    assert forall|j: int| 0 <= j < n implies lo <= (#[trigger] pre[j]).val() <= hi by {
        assert(fin.contains(pre[j]));
        let m = choose|m: int| 0 <= m < n && fin[m] == pre[j];
        assert(fin[0].val() <= fin[m].val() <= fin[n - 1].val());
    }
    assert forall|j: int| 0 <= j < n implies attained(cv, i, #[trigger] fin[j].val()) by {
        assert(pre.contains(fin[j]));
        let m = choose|m: int| 0 <= m < n && pre[m] == fin[j];
        let e = pre[a].val() == cv(i, 0real) && pre[b].val() == cv(i, 1real);
        let t = if o <= m < kp.len() + o { kp[m - o].val() } else if (m == a) == e { 0real } else { 1real };
        assert(0real <= t <= 1real && pre[m].val() == cv(i, t));
    }
    assert(lo <= pre[a].val() <= hi && lo <= pre[b].val() <= hi);
    assert(cv(i, 0real) == pl(k, ga, be, al, 0real) && cv(i, 1real) == pl(k, ga, be, al, 1real));
    assert forall|j: int| 0 <= j < rt.len() implies c01((#[trigger] rt[j]).val(), lo, hi, k, ga, be, al) by {
        let r = rt[j].val();
        if 0real < r < 1real {
            assert(kp.contains(rt[j]));
            let m = choose|m: int| 0 <= m < kp.len() && kp[m] == rt[j];
            assert(lo <= pre[m + o].val() <= hi);
            assert(cv(i, r) == pl(k, ga, be, al, r));
        }
    }
    assert forall|t: real| 0real <= t <= 1real implies lo - eps() <= #[trigger] cv(i, t) <= hi + eps() by {
        if al == 0real && roots1(rt, be, ga) { box1(k, ga, be, rt, lo, hi, t); } else { box2(k, ga, be, al, rt, lo, hi, t); }
    }
}
/// the same for running bounds: they cover both ends and the critical points inside, and the curve attains them
pub proof fn box_range<S: Scalar>(cv: Cv, i: int, k: real, ga: real, be: real, al: real, rt: Seq<S>, lo: real, hi: real)
    requires
        forall|t: real| #[trigger] cv(i, t) == pl(k, ga, be, al, t),
        al == 0real && roots1(rt, be, ga) || roots2(rt, al, be, ga),
        lo <= cv(i, 0real) <= hi, lo <= cv(i, 1real) <= hi, attained(cv, i, lo), attained(cv, i, hi),
        forall|j: int| 0 <= j < rt.len() && 0real < (#[trigger] rt[j]).val() < 1real ==> lo <= cv(i, rt[j].val()) <= hi,
    ensures box_ok(cv, i, lo, hi),
{
    assert(cv(i, 0real) == pl(k, ga, be, al, 0real) && cv(i, 1real) == pl(k, ga, be, al, 1real));
    assert forall|j: int| 0 <= j < rt.len() implies c01((#[trigger] rt[j]).val(), lo, hi, k, ga, be, al) by {
        let r = rt[j].val();
        if 0real < r < 1real { assert(cv(i, r) == pl(k, ga, be, al, r)); }
    }
    assert forall|t: real| 0real <= t <= 1real implies lo - eps() <= #[trigger] cv(i, t) <= hi + eps() by {
        if al == 0real && roots1(rt, be, ga) { box1(k, ga, be, rt, lo, hi, t); } else { box2(k, ga, be, al, rt, lo, hi, t); }
    }
}
pub proof fn box_line(cv: Cv, i: int, a: real, b: real)
    requires forall|t: real| #[trigger] cv(i, t) == a * (1real - t) + b * t,
    ensures a <= b ==> box_ok(cv, i, a, b), b <= a ==> box_ok(cv, i, b, a),
{
    let (lo, hi) = (rmin(a, b), rmax(a, b));
    assert(cv(i, 0real) == a) by { assert(a * (1real - 0real) + b * 0real == a) by(nonlinear_arith); }
    assert(cv(i, 1real) == b) by { assert(a * (1real - 1real) + b * 1real == b) by(nonlinear_arith); }
    assert(attained(cv, i, a) && attained(cv, i, b));
    assert forall|t: real| 0real <= t <= 1real implies lo - eps() <= #[trigger] cv(i, t) <= hi + eps() by {
        assert(lo <= a * (1real - t) + b * t <= hi) by(nonlinear_arith) requires lo <= a <= hi, lo <= b <= hi, 0real <= t <= 1real;
    }
}
