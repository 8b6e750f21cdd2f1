//! Reference mathematics over f128, written from the definitions.
use crate::num::*;

pub fn powi(x: Q, n: usize) -> Q { let mut r = 1.0 as Q; for _ in 0..n { r *= x; } r }
pub fn binom(n: usize, k: usize) -> Q { let mut r = 1.0 as Q; for i in 0..k { r = r * ((n - i) as Q) / ((i + 1) as Q); } r }
/// Bernstein sum of p over degree p.len()-1
pub fn bern(p: &[Q], t: Q) -> Q {
    let n = p.len() - 1;
    let mut s = 0.0 as Q;
    for i in 0..=n { s += binom(n, i) * powi(1.0 - t, n - i) * powi(t, i) * p[i]; }
    s
}
pub fn dbern(p: &[Q], t: Q) -> Q {
    let n = p.len() - 1;
    if n == 0 { return 0.0; }
    let d: Vec<Q> = (0..n).map(|i| (p[i + 1] - p[i]) * (n as Q)).collect();
    bern(&d, t)
}
/// column k of rows
pub fn col(v: &[Vec<f64>], k: usize) -> Vec<Q> { v.iter().map(|r| r[k] as Q).collect() }
pub fn maxabs(v: &[Vec<f64>]) -> Q { let mut m = 0.0 as Q; for r in v { for x in r { m = qmax(m, qabs(*x as Q)); } } m }
pub fn curve(v: &[Vec<f64>], t: Q) -> Vec<Q> { (0..v[0].len()).map(|k| bern(&col(v, k), t)).collect() }
pub fn dist(a: &[Q], b: &[Q]) -> Q { qsqrt(a.iter().zip(b).fold(0.0 as Q, |s, (x, y)| s + (*x - *y) * (*x - *y))) }

/// extreme values over [0,1] of the cubic (or lower) with control values p
pub fn extremes(p: &[Q]) -> (Q, Q) {
    let mut cand = vec![0.0 as Q, 1.0];
    let n = p.len() - 1;
    let scale = p.iter().fold(0.0 as Q, |m, x| qmax(m, qabs(*x)));
    let tiny = scale * 1e-30;
    let (a, b, c) = match n {
        1 => (0.0, 0.0, p[1] - p[0]),
        2 => (0.0, 2.0 * (p[2] - 2.0 * p[1] + p[0]), 2.0 * (p[1] - p[0])),
        _ => (3.0 * (p[3] - 3.0 * p[2] + 3.0 * p[1] - p[0]), 6.0 * (p[2] - 2.0 * p[1] + p[0]), 3.0 * (p[1] - p[0])),
    };
    if qabs(a) <= tiny { if qabs(b) > tiny { cand.push(-c / b); } } else {
        let d = b * b - 4.0 * a * c;
        if d >= 0.0 {
            let q = if b < 0.0 { -b + qsqrt(d) } else { -b - qsqrt(d) } / 2.0;
            cand.push(q / a);
            if q != 0.0 { cand.push(c / q); }
        } else { cand.push(-b / (2.0 * a)); }
    }
    let (mut lo, mut hi) = (p[0], p[0]);
    for t in cand { if t >= 0.0 && t <= 1.0 { let v = bern(p, t); lo = qmin(lo, v); hi = qmax(hi, v); } }
    (lo, hi)
}

/// span index used by the definition at t (right end: the last non-empty span), None outside the domain
pub fn span(u: &[f64], c: usize, d: usize, t: f64) -> Option<usize> {
    if !(u[d] <= t && t <= u[c]) { return None; }
    let mut best = None;
    for k in d..c { if u[k] <= t && t < u[k + 1] { best = Some(k); } }
    if best.is_none() { for k in d..c { if u[k] < u[k + 1] { best = Some(k); } } }
    best
}
/// Cox-de Boor basis functions N_{i,deg}(t) for i < u.len()-1-deg, the span being k
pub fn basis(u: &[f64], deg: usize, k: usize, t: Q) -> Vec<Q> {
    let m = u.len() - 1;
    let mut n: Vec<Q> = (0..m).map(|i| if i == k { 1.0 } else { 0.0 }).collect();
    for r in 1..=deg {
        let mut nn = vec![0.0 as Q; m - r];
        for i in 0..m - r {
            let (a, b) = (u[i + r] as Q - u[i] as Q, u[i + r + 1] as Q - u[i + 1] as Q);
            let mut s = 0.0 as Q;
            if a > 0.0 { s += (t - u[i] as Q) / a * n[i]; }
            if b > 0.0 { s += (u[i + r + 1] as Q - t) / b * n[i + 1]; }
            nn[i] = s;
        }
        n = nn;
    }
    n
}
pub fn bspl(u: &[f64], v: &[Vec<f64>], d: usize, k: usize, t: Q) -> Vec<Q> {
    let n = basis(u, d, k, t);
    (0..v[0].len()).map(|a| (0..v.len()).fold(0.0 as Q, |s, i| s + n[i] * v[i][a] as Q)).collect()
}
/// derivative on span k
pub fn dbspl(u: &[f64], v: &[Vec<f64>], d: usize, k: usize, t: Q) -> Vec<Q> {
    let n = basis(u, d - 1, k, t);
    (0..v[0].len()).map(|a| (0..v.len() - 1).fold(0.0 as Q, |s, i| {
        let den = u[i + d + 1] as Q - u[i + 1] as Q;
        if den > 0.0 { s + n[i + 1] * (v[i + 1][a] as Q - v[i][a] as Q) * (d as Q) / den } else { s }
    })).collect()
}
