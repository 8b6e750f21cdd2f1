//! Concrete replay harness: runs the real code of /repo against reference mathematics.
//! usage: vharness <property> --seed S --tier quick|thorough|deep --dict a,b,c [--only CASE]
#![allow(incomplete_features, dead_code, unused)]
#![feature(f128, generic_const_exprs)]
mod bez;
mod bsp;
mod cx;
mod num;
mod oracle;
mod pt;
use cx::*;
use num::*;
use std::time::{Duration, Instant};
use stroke::{Bezier, CubicBezier, LineSegment, PointN, QuadraticBezier};

type A<const D: usize> = PointN<f64, D>;

/// run a generic check for a choice of dimensions over both scalars
macro_rules! dims { ($x:ident, $d:ident, [$($n:literal),*], |$P:ident| $b:expr) => { match $d {
    $( $n => { if $x.chance(0.5) { type $P = A<$n>; $b } else { type $P = V<$n>; $b } } )* _ => unreachable!() } } }
macro_rules! gens { ($m:ident, $n:ident, [$($k:literal),*], |$N:ident| $b:expr) => { match $n { $( $k => { const $N: usize = $k; $b } )* _ => unreachable!() } } }
const SIZES: [usize; 17] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 25, 33];

fn pow2pts(x: &mut Cx, n: usize, d: usize) -> Vec<Vec<f64>> { x.points(n, d) }
fn ts(x: &mut Cx, n: usize) -> Vec<f64> { (0..n).map(|_| x.tany()).collect() }
fn t01s(x: &mut Cx, n: usize) -> Vec<f64> { (0..n).map(|_| x.t01()).collect() }

fn c01(x: &mut Cx) {
    while !x.stop() && x.more(3000) {
        let n = if x.chance(0.3) { x.pick(&SIZES) } else { 1 + x.below(8) };
        let d = x.pick(&[1usize, 2, 2, 2, 3, 4, 5, 7, 10]);
        let v = pow2pts(x, n, d);
        let t = ts(x, 3);
        gens!(x, n, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 25, 33], |N| dims!(x, d, [1, 2, 3, 4, 5, 7, 10], |P| bez::eval::<P, Bezier<P, N>>(x, &v, &t)));
    }
}
/// pick a kind of low degree curve (and optionally generic / segment) and run a check on it
macro_rules! kinds { ($x:ident, $d:ident, $v:ident, [$($n:literal),*], low: |$P:ident, $C:ident| $b:expr) => {
    match $v.len() {
        2 => dims!($x, $d, [$($n),*], |$P| { type $C = LineSegment<$P>; $b }),
        3 => dims!($x, $d, [$($n),*], |$P| { type $C = QuadraticBezier<$P>; $b }),
        _ => dims!($x, $d, [$($n),*], |$P| { type $C = CubicBezier<$P>; $b }),
    } };
    ($x:ident, $d:ident, $v:ident, [$($n:literal),*], gen: |$P:ident, $C:ident| $b:expr) => {{
        let m = $v.len();
        gens!($x, m, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 25, 33], |NN| dims!($x, $d, [$($n),*], |$P| { type $C = Bezier<$P, NN>; $b }))
    }};
    ($x:ident, $d:ident, $v:ident, [$($n:literal),*], seg: |$P:ident, $C:ident| $b:expr) => {{
        let m = $v.len();
        gens!($x, m, [2, 3, 4], |NN| dims!($x, $d, [$($n),*], |$P| { type $C = bez::Seg<$P, NN>; $b }))
    }};
}
fn dim(x: &mut Cx) -> usize { x.pick(&[1usize, 2, 2, 2, 3, 4, 6, 9]) }
fn gsize(x: &mut Cx) -> usize { if x.chance(0.3) { x.pick(&SIZES) } else { 1 + x.below(8) } }

fn c02(x: &mut Cx) {
    while !x.stop() && x.more(4000) {
        let (n, d) = (2 + x.below(3), dim(x));
        let v = pow2pts(x, n, d);
        let t = ts(x, 4);
        kinds!(x, d, v, [1, 2, 3, 4, 6, 9], low: |P, C| bez::eval::<P, C>(x, &v, &t));
        if x.chance(0.2) { kinds!(x, d, v, [1, 2, 3, 4, 6, 9], gen: |P, C| bez::eval::<P, C>(x, &v, &t)); }
    }
}
fn c03(x: &mut Cx) {
    while !x.stop() && x.more(1500) {
        let d = dim(x);
        let t = ts(x, 2);
        let mut s = vec![0.0, 1.0];
        for _ in 0..4 { s.push(x.tany()); }
        match x.below(3) {
            0 => { let n = 2 + x.below(3); let v = pow2pts(x, n, d); kinds!(x, d, v, [1, 2, 3, 4, 6, 9], low: |P, C| bez::split::<P, C>(x, &v, &t, &s)); }
            1 => { let n = 2 + x.below(3); let v = pow2pts(x, n, d); kinds!(x, d, v, [1, 2, 3, 4, 6, 9], seg: |P, C| bez::split::<P, C>(x, &v, &t, &s)); }
            _ => { let n = gsize(x); let v = pow2pts(x, n, d); kinds!(x, d, v, [1, 2, 3, 4, 6, 9], gen: |P, C| bez::split::<P, C>(x, &v, &t, &s)); }
        }
    }
}
fn c04(x: &mut Cx) {
    while !x.stop() && x.more(3000) {
        let d = dim(x);
        let t = ts(x, 3);
        if x.chance(0.6) {
            let n = 2 + x.below(3);
            let v = pow2pts(x, n, d);
            dims!(x, d, [1, 2, 3, 4, 6, 9], |P| bez::deriv_low::<P>(x, &v, &t));
        } else if x.chance(0.2) {
            let (n, d) = (x.pick(&[18usize, 21, 26, 34]), 1 + x.below(2));
            let v = pow2pts(x, n, d);
            gens!(x, n, [18, 21, 26, 34], |N| dims!(x, d, [1, 2], |P| bez::deriv_gen::<P, N>(x, &v, &t)));
        } else {
            let n = x.pick(&[2usize, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16]);
            let v = pow2pts(x, n, d);
            gens!(x, n, [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16], |N| dims!(x, d, [1, 2, 3, 4, 6, 9], |P| bez::deriv_gen::<P, N>(x, &v, &t)));
        }
    }
}
fn c05(x: &mut Cx) {
    while !x.stop() && x.more(3000) {
        let d = dim(x);
        let t = t01s(x, 5);
        match x.below(3) {
            0 => { let n = 2 + x.below(3); let v = pow2pts(x, n, d); kinds!(x, d, v, [1, 2, 3, 4, 6, 9], low: |P, C| bez::ends::<P, C>(x, &v, &t)); }
            1 => { let n = 2 + x.below(3); let v = pow2pts(x, n, d); kinds!(x, d, v, [1, 2, 3, 4, 6, 9], seg: |P, C| bez::ends::<P, C>(x, &v, &t)); }
            _ => { let n = gsize(x); let v = pow2pts(x, n, d); kinds!(x, d, v, [1, 2, 3, 4, 6, 9], gen: |P, C| bez::ends::<P, C>(x, &v, &t)); }
        }
    }
}
/// control points giving special derivative polynomials (double root, root at the ends, vanishing leading term, ...)
fn boxpts(x: &mut Cx, n: usize, d: usize) -> Vec<Vec<f64>> {
    let mut v = x.points(n, d);
    for a in 0..d {
        if x.chance(0.5) { continue; }
        let (r1, r2) = (x.pick(&[0.0, 1.0, 0.5, 0.25, -0.5, 1.5, 0.75, 1.0 / 3.0]), x.pick(&[0.0, 1.0, 0.5, 0.25, 2.0, -1.0, 0.75, 0.9]));
        let k = x.pick(&[1.0, -1.0, 3.0, -7.0, 1e-3, 1e3]);
        // derivative coefficients: k (t-r1)(t-r2), k (t-r1) or k
        let kind = x.below(8);
        let (c2, c1, c0) = match kind {
            0 | 1 if n == 4 => (k, -k * (r1 + r2), k * r1 * r2),
            2 if n == 4 => (k, -k * 2.0 * r1, k * r1 * r1),
            3 if n == 4 => (k, -k * 2.0 * r1, k * (r1 * r1 + 0.01)),
            4 => (0.0, k, -k * r1),
            5 => (0.0, 0.0, k),
            6 => (if n == 4 { x.pick(&[1e-15, -1e-15, 1e-12, 1e-9, 2.3e-16]) * k } else { 0.0 }, k, -k * r1),
            _ => (0.0, 0.0, 0.0),
        };
        let base = v[0][a];
        // control values of base + c0 t + c1 t^2/2 + c2 t^3/3 in Bernstein form of degree n-1
        let deg = n - 1;
        for i in 0..n {
            let i1 = i as f64 / deg as f64;
            let i2 = if deg >= 2 { (i * (i.max(1) - 1)) as f64 / (deg * (deg - 1)) as f64 } else { 0.0 };
            let i3 = if deg >= 3 && i == 3 { 1.0 } else { 0.0 };
            v[i][a] = base + c0 * i1 + c1 / 2.0 * i2 + c2 / 3.0 * i3;
        }
        if kind == 7 { let j = x.below(n); v[j][a] = base + k; }
    }
    v
}
fn c06(x: &mut Cx) {
    while !x.stop() && x.more(8000) {
        let n = x.pick(&[2usize, 3, 3, 4, 4, 4]);
        let d = x.pick(&[1usize, 2, 2, 3, 4, 6, 9]);
        let v = boxpts(x, n, d);
        macro_rules! bb { ($($k:literal),*) => { match d { $( $k => match (n, x.chance(0.5)) {
            (2, true) => bez::bbox::<A<$k>, LineSegment<A<$k>>>(x, &v), (2, false) => bez::bbox::<V<$k>, LineSegment<V<$k>>>(x, &v),
            (3, true) => bez::bbox::<A<$k>, QuadraticBezier<A<$k>>>(x, &v), (3, false) => bez::bbox::<V<$k>, QuadraticBezier<V<$k>>>(x, &v),
            (_, true) => bez::bbox::<A<$k>, CubicBezier<A<$k>>>(x, &v), (_, false) => bez::bbox::<V<$k>, CubicBezier<V<$k>>>(x, &v) }, )* _ => unreachable!() } } }
        bb!(1, 2, 3, 4, 6, 9);
    }
}
/// a query point: free, near the curve, on an end, beyond an end
fn query(x: &mut Cx, v: &[Vec<f64>]) -> Vec<f64> {
    let d = v[0].len();
    let m = oracle::maxabs(v) as f64;
    match x.below(6) {
        0 => v[x.below(v.len())].clone(),
        1 => { let t = x.tany(); oracle::curve(v, t as Q).iter().map(|z| *z as f64).collect() }
        2 => { let t = x.t01(); let k = x.pick(&[1e-3, 1e-6, 0.1]) * m; (0..d).map(|a| oracle::bern(&oracle::col(v, a), t as Q) as f64 + k * (x.unit() - 0.5)).collect() }
        3 => { let k = m * 3.0 + 1.0; (0..d).map(|_| x.range(-k, k)).collect() }
        4 => { let l = v.len() - 1; let s = x.pick(&[-0.5, 1.5, -1e-3, 1.001, 2.0]); (0..d).map(|a| v[0][a] + (v[l][a] - v[0][a]) * s).collect() }
        _ => (0..d).map(|_| x.range(-m - 1e-9, m + 1e-9)).collect(),
    }
}
fn c07(x: &mut Cx) {
    while !x.stop() && x.more(12000) {
        let d = dim(x);
        let mut v = x.points(2, d);
        if x.chance(0.15) { // near the machine epsilon threshold of the squared length
            let f = x.pick(&[1e-12, 1e-9, 1.4e-8, 1.6e-8, 2e-8, 5e-8, 1e-7, 1e-6]);
            v[1] = v[0].clone();
            let a = x.below(d);
            v[1][a] += f;
        }
        let p = query(x, &v);
        dims!(x, d, [1, 2, 3, 4, 6, 9], |P| bez::linedist::<P>(x, &v, &p));
    }
}
fn c08(x: &mut Cx) {
    while !x.stop() && x.more(700) {
        let d = dim(x);
        let n = if x.chance(0.6) { 3 + x.below(2) } else { gsize(x).min(13) };
        let mut v = x.points(n, d);
        if x.chance(0.2) && n > 2 { let i = 1 + x.below(n - 2); let k = 50.0 * (oracle::maxabs(&v) as f64) + 1.0; let a = x.below(d); v[i][a] += k; }
        let p = query(x, &v);
        match n {
            3 | 4 if x.chance(0.6) => match n {
                3 => dims!(x, d, [1, 2, 3, 4, 6, 9], |P| bez::curvedist::<P, QuadraticBezier<P>>(x, &v, &p)),
                _ => dims!(x, d, [1, 2, 3, 4, 6, 9], |P| bez::curvedist::<P, CubicBezier<P>>(x, &v, &p)),
            },
            _ => kinds!(x, d, v, [1, 2, 3, 4, 6, 9], gen: |P, C| bez::curvedist::<P, C>(x, &v, &p)),
        }
    }
}
fn c09(x: &mut Cx) {
    while !x.stop() && x.more(900) {
        let d = dim(x);
        let n = if x.chance(0.6) { 3 + x.below(2) } else { gsize(x) };
        let v = x.points(n, d);
        let s = x.steps();
        match n {
            3 | 4 if x.chance(0.7) => match n {
                3 => dims!(x, d, [1, 2, 3, 4, 6, 9], |P| bez::arclen::<P, QuadraticBezier<P>>(x, &v, s)),
                _ => dims!(x, d, [1, 2, 3, 4, 6, 9], |P| bez::arclen::<P, CubicBezier<P>>(x, &v, s)),
            },
            _ => kinds!(x, d, v, [1, 2, 3, 4, 6, 9], gen: |P, C| bez::arclen::<P, C>(x, &v, s)),
        }
    }
}
fn c10(x: &mut Cx) {
    // exact ties: axis-parallel and 3-4-5 configurations with integer distances
    for d in [2usize, 3] { for n in [3usize, 4] {
        for mask in 0..27usize {
            for tl in [5.0, 5.0 - 1e-9, 4.999, 0.0, 5.0 + 1e-9, 10.0, 1e9] {
                for kind in 0..3 {
                    let z = |c: &[f64]| { let mut r = vec![0.0; d]; r[..2].copy_from_slice(&c[..2]); r };
                    let off = |m: usize| match m % 3 { 0 => 5.0, 1 => -5.0, _ => 0.0 };
                    let v = match kind {
                        0 => if n == 3 { vec![z(&[0.0, 0.0]), z(&[4.0, off(mask)]), z(&[8.0, 0.0])] } else { vec![z(&[0.0, 0.0]), z(&[2.0, off(mask)]), z(&[6.0, off(mask / 3)]), z(&[8.0, 0.0])] },
                        1 => { // offsets from the start: (3,4), (5,0), (0,-5)...
                            let o = |m: usize| match m % 3 { 0 => z(&[3.0, 4.0]), 1 => z(&[0.0, 0.0]), _ => z(&[-4.0, 3.0]) };
                            let add = |a: &Vec<f64>, b: &Vec<f64>| a.iter().zip(b).map(|(x, y)| x + y).collect::<Vec<f64>>();
                            let s = z(&[1.0, 2.0]);
                            let e = add(&s, &o(mask));
                            if n == 3 { vec![s.clone(), add(&s, &o(mask / 3)), e] } else { vec![s.clone(), add(&s, &o(mask / 3)), add(&e, &o(mask / 9)), e] }
                        }
                        _ => { // inner points beyond the ends
                            let o = |m: usize| match m % 3 { 0 => z(&[-3.0, 4.0]), 1 => z(&[13.0, 0.0]), _ => z(&[11.0, -4.0]) };
                            if n == 3 { vec![z(&[0.0, 0.0]), o(mask), z(&[8.0, 0.0])] } else { vec![z(&[0.0, 0.0]), o(mask), o(mask / 3), z(&[8.0, 0.0])] }
                        }
                    };
                    if d == 2 { bez::flat::<A<2>>(x, &v, tl, true); bez::flat::<V<2>>(x, &v, tl, true); } else { bez::flat::<A<3>>(x, &v, tl, true); }
                }
            }
        }
    } }
    while !x.stop() && x.more(12000) {
        let (n, d) = (3 + x.below(2), x.pick(&[1usize, 2, 2, 3, 4, 7]));
        let mut v = x.points(n, d);
        if x.chance(0.4) { // nearly a line, or nearly a point
            let e = x.pick(&[1e-1, 1e-3, 1e-6]) * (oracle::maxabs(&v) as f64);
            let (a, b) = (v[0].clone(), v[n - 1].clone());
            let point = x.chance(0.5);
            for i in 1..n { let s = i as f64 / (n - 1) as f64; for k in 0..d { v[i][k] = if point { a[k] } else { a[k] + (b[k] - a[k]) * s } + if point || i < n - 1 { e * (x.unit() - 0.5) } else { 0.0 }; } }
        }
        // a tolerance near one of the relevant distances
        let f = |v: &Vec<f64>| v.iter().map(|z| *z as Q).collect::<Vec<Q>>();
        let ds: Vec<Q> = vec![oracle::dist(&f(&v[0]), &f(&v[n - 1])), oracle::dist(&f(&v[0]), &f(&v[1])), oracle::dist(&f(&v[n - 1]), &f(&v[n - 2])), bez::segdist(&f(&v[0]), &f(&v[n - 1]), &f(&v[1])), bez::segdist(&f(&v[0]), &f(&v[n - 1]), &f(&v[n - 2])), oracle::dist(&f(&v[0]), &f(&v[n - 2]))];
        let tl = match x.below(5) { 0 => x.pick(&[0.0, 1e-9, 1e-6, 1e-3, 1.0, 1e3]), 1 => x.dictval().abs(), _ => (x.pick(&ds) as f64) * x.pick(&[0.99, 1.01, 0.5, 2.0, 1.001, 0.999, 0.7, 1.4]) };
        dims!(x, d, [1, 2, 3, 4, 7], |P| bez::flat::<P>(x, &v, tl, false));
    }
}
/// (K, C, D) of valid B-splines
macro_rules! combos { ($m:ident!($($a:tt)*)) => { $m!([$($a)*] 
    (2, 1, 0), (3, 2, 0), (4, 3, 0), (6, 5, 0), (4, 2, 1), (5, 3, 1), (6, 4, 1), (8, 6, 1), (11, 9, 1),
    (6, 3, 2), (7, 4, 2), (8, 5, 2), (9, 6, 2), (10, 7, 2), (13, 10, 2), (8, 4, 3), (9, 5, 3), (10, 6, 3), (11, 7, 3), (12, 8, 3), (13, 9, 3), (16, 12, 3),
    (10, 5, 4), (11, 6, 4), (13, 8, 4), (15, 10, 4), (12, 6, 5), (13, 7, 5), (15, 9, 5), (17, 11, 5), (16, 8, 7), (19, 11, 7)) } }
const COMBOS: [(usize, usize, usize); 32] = [(2, 1, 0), (3, 2, 0), (4, 3, 0), (6, 5, 0), (4, 2, 1), (5, 3, 1), (6, 4, 1), (8, 6, 1), (11, 9, 1),
    (6, 3, 2), (7, 4, 2), (8, 5, 2), (9, 6, 2), (10, 7, 2), (13, 10, 2), (8, 4, 3), (9, 5, 3), (10, 6, 3), (11, 7, 3), (12, 8, 3), (13, 9, 3), (16, 12, 3),
    (10, 5, 4), (11, 6, 4), (13, 8, 4), (15, 10, 4), (12, 6, 5), (13, 7, 5), (15, 9, 5), (17, 11, 5), (16, 8, 7), (19, 11, 7)];
macro_rules! run_bsp { ([$x:ident, $sel:ident, |$K:ident, $C:ident, $D:ident| $b:expr] $(($k:literal, $c:literal, $d:literal)),*) => {
    match $sel { $( ($k, $c, $d) => { const $K: usize = $k; const $C: usize = $c; const $D: usize = $d; $b } )* _ => unreachable!() } } }
macro_rules! run_bsp_pos { ([$x:ident, $sel:ident, |$K:ident, $C:ident, $D:ident| $b:expr] $(($k:literal, $c:literal, $d:literal)),*) => {
    posarm!([$x, $sel, |$K, $C, $D| $b] [(4, 2, 1), (5, 3, 1), (6, 4, 1), (8, 6, 1), (11, 9, 1),
    (6, 3, 2), (7, 4, 2), (8, 5, 2), (9, 6, 2), (10, 7, 2), (13, 10, 2), (8, 4, 3), (9, 5, 3), (10, 6, 3), (11, 7, 3), (12, 8, 3), (13, 9, 3), (16, 12, 3),
    (10, 5, 4), (11, 6, 4), (13, 8, 4), (15, 10, 4), (12, 6, 5), (13, 7, 5), (15, 9, 5), (17, 11, 5), (16, 8, 7), (19, 11, 7)]) } }
macro_rules! posarm { ([$x:ident, $sel:ident, |$K:ident, $C:ident, $D:ident| $b:expr] [$(($k:literal, $c:literal, $d:literal)),*]) => {
    match $sel { $( ($k, $c, $d) => { const $K: usize = $k; const $C: usize = $c; const $D: usize = $d; $b } )* _ => unreachable!() } } }

fn c11(x: &mut Cx) {
    macro_rules! bad { ($($k:literal $c:literal $d:literal),*) => { $( {
        for _ in 0..6 {
            let mut u: Vec<f64> = (0..$k).map(|_| x.range(-5.0, 5.0)).collect();
            if x.chance(0.6) { u.sort_by(num::cmp); }
            if x.chance(0.2) && $k > 0 { let i = x.below($k); u[i] = f64::NAN; }
            let v = x.points($c, 2);
            bsp::construct::<$k, $c, $d>(x, &u, &v);
        } } )* } }
    bad!(0 0 0, 1 0 0, 0 1 0, 1 1 0, 3 1 0, 2 1 0, 5 1 0, 2 0 1, 2 1 1, 3 1 1, 4 1 1, 3 2 1, 5 2 1, 4 2 1, 6 2 2, 5 2 2, 4 2 2, 5 3 2, 7 3 2, 6 3 2, 9 3 2, 7 3 3, 6 3 3, 8 3 3,
         7 4 3, 9 4 3, 8 4 3, 12 4 3, 0 4 3, 1 4 3, 2 4 3, 7 5 3, 8 5 3, 10 5 3, 9 5 3, 11 5 3, 8 7 2, 9 7 2, 11 7 2, 12 7 2, 10 7 2, 10 5 5, 11 5 5, 12 5 5, 11 6 5, 13 6 5, 12 6 5, 3 0 2, 3 0 3, 4 0 3, 6 1 4, 10 3 6);
    for combo in COMBOS {
        let (k, c, _) = combo;
        for round in 0..(3 * k + 12) {
            let mut u = bsp::knots(x, c, combo.2, 99);
            if round < k { u[round] = f64::NAN; }
            else if round < 2 * k { let i = round - k; if i + 1 < k { u[i] = u[i + 1] + x.pick(&[1.0, 1e-9, 100.0, f64::INFINITY]); } else { u[i] = u[i - 1] - x.pick(&[1.0, 1e-9, f64::INFINITY]); } }
            else if round < 3 * k { let i = round - 2 * k; if i > 0 { u[i] = bsp::next_down(u[i - 1]); } else { u[0] = bsp::next_up(u[1.min(k - 1)]); } }
            else { match round - 3 * k { 0 => u[0] = f64::NEG_INFINITY, 1 => u[k - 1] = f64::INFINITY, 2 => { for z in u.iter_mut() { *z = 7.0; } } 3 => { for (i, z) in u.iter_mut().enumerate() { *z = if i % 2 == 0 { 0.0 } else { -0.0 }; } }
                4 => u.reverse(), 5 => { for z in u.iter_mut() { *z = f64::NAN; } } 6 => { for z in u.iter_mut() { *z = -*z; } } _ => {} } }
            let v = x.points(c, 2);
            combos!(run_bsp!(x, combo, |K, C, D| bsp::construct::<K, C, D>(x, &u, &v)));
            if x.stop() { return; }
        }
    }
    while !x.stop() && x.more(4000) {
        let combo = x.pick(&COMBOS);
        let mut u = bsp::knots(x, combo.1, combo.2, 99);
        if x.chance(0.5) { let (i, j) = (x.below(combo.0), x.below(combo.0)); u.swap(i, j); }
        let v = x.points(combo.1, 2);
        combos!(run_bsp!(x, combo, |K, C, D| bsp::construct::<K, C, D>(x, &u, &v)));
    }
}
fn c12(x: &mut Cx) {
    while !x.stop() && x.more(2500) {
        let combo = x.pick(&COMBOS);
        let (_, c, d) = combo;
        let u = bsp::knots(x, c, d, 99);
        let v = x.points(c, 2);
        let (a, b) = (u[d], u[c]);
        let mut t = bsp::params(x, &u, c, d, 3);
        t.extend([a, b, bsp::next_down(a), bsp::next_up(b), bsp::next_up(a).min(b), bsp::next_down(b).max(a), a - 1.0, b + 1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, 1.0, u[0], u[u.len() - 1], -0.0]);
        for k in &u { t.push(*k); if x.chance(0.2) { t.push(bsp::next_up(*k)); t.push(bsp::next_down(*k)); } }
        for _ in 0..2 { t.push(x.range(a - 2.0, b + 2.0)); }
        t.push(x.dictval());
        combos!(run_bsp!(x, combo, |K, C, D| if x.chance(0.6) { bsp::domain::<A<2>, K, C, D>(x, &u, &v, &t) } else { bsp::domain::<V<2>, K, C, D>(x, &u, &v, &t) }));
    }
}
fn c13(x: &mut Cx) {
    while !x.stop() && x.more(3000) {
        let combo = x.pick(&COMBOS);
        let (_, c, d) = combo;
        let u = bsp::knots(x, c, d, d + 1 + x.n as usize % 2 * 99);
        let v = x.points(c, 2);
        let t = bsp::params(x, &u, c, d, 4);
        combos!(run_bsp!(x, combo, |K, C, D| if x.chance(0.6) { bsp::coxdeboor::<A<2>, K, C, D>(x, &u, &v, &t) } else { bsp::coxdeboor::<V<2>, K, C, D>(x, &u, &v, &t) }));
    }
}
fn c14(x: &mut Cx) {
    while !x.stop() && x.more(3000) {
        let combo = x.pick(&COMBOS);
        let (_, c, d) = combo;
        let u = bsp::knots(x, c, d, d + 1);
        let v = x.points(c, 2);
        let t = bsp::params(x, &u, c, d, 4);
        let far = x.pick(&[1e3, -50.0, 1e6, 1.0]);
        combos!(run_bsp!(x, combo, |K, C, D| if x.chance(0.6) { bsp::local::<A<2>, K, C, D>(x, &u, &v, &t, far) } else { bsp::local::<V<2>, K, C, D>(x, &u, &v, &t, far) }));
    }
}
fn c15(x: &mut Cx) {
    while !x.stop() && x.more(3000) {
        let combo = x.pick(&COMBOS[4..]);
        let (_, c, d) = combo;
        let u = bsp::knots(x, c, d, d);
        let v = x.points(c, 2);
        let t = bsp::params(x, &u, c, d, 4);
        combos!(run_bsp_pos!(x, combo, |K, C, D| if x.chance(0.6) { bsp::deriv::<A<2>, K, C, D>(x, &u, &v, &t) } else { bsp::deriv::<V<2>, K, C, D>(x, &u, &v, &t) }));
    }
}
fn c16(x: &mut Cx) {
    while !x.stop() && x.more(700) {
        let combo = x.pick(&COMBOS);
        let (k, c, d) = combo;
        let (u, n) = if d == 0 { // jumps: exact (dyadic) parameters only
            let s = x.pick(&[1usize, 2, 4, 8, 16]);
            ((0..k).map(|i| (i + x.n as usize % 3) as f64 / 2.0).collect::<Vec<f64>>(), s)
        } else { (bsp::knots(x, c, d, d), x.steps()) };
        if d == 0 && !((u[c] - u[d]) / n as f64 * 1024.0).fract().eq(&0.0) { x.n += 1; continue; }
        let v = x.points(c, 2);
        combos!(run_bsp!(x, combo, |K, C, D| if x.chance(0.6) { bsp::arclen::<A<2>, K, C, D>(x, &u, &v, n) } else { bsp::arclen::<V<2>, K, C, D>(x, &u, &v, n) }));
    }
}
fn c17(x: &mut Cx) {
    while !x.stop() && x.more(4000) {
        let (n, d) = (2 + x.below(3), dim(x));
        let v = x.points(n, d);
        let t = ts(x, 3);
        let m = oracle::maxabs(&v) as f64;
        let tl = match x.below(3) { 0 => x.pick(&[0.0, 1e-9, 1e9]), 1 => x.dictval(), _ => m * x.unit() };
        dims!(x, d, [1, 2, 3, 4, 6, 9], |P| bez::segment::<P>(x, &v, &t, tl));
    }
}
fn fval(x: &mut Cx) -> f64 { match x.below(4) { 0 => x.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 1e300, -1e-300, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY]), 1 => { let m = x.below(8); x.coord(m) } 2 => x.below(5) as f64, _ => x.range(-1e3, 1e3) } }
fn c18(x: &mut Cx) {
    while !x.stop() && x.more(12000) {
        let a: Vec<f64> = (0..33).map(|_| fval(x)).collect();
        let mut b: Vec<f64> = (0..33).map(|_| fval(x)).collect();
        if x.chance(0.4) { b = a.clone(); if x.chance(0.5) { let i = x.below(33); b[i] = fval(x); } }
        let s = fval(x);
        let n = x.pick(&[0usize, 1, 2, 3, 4, 5, 8, 16, 33]);
        gens!(x, n, [0, 1, 2, 3, 4, 5, 8, 16, 33], |N| pt::float::<N>(x, &a, &b, s));
        if n > 0 { let k = x.below(n); gens!(x, n, [1, 2, 3, 4, 5, 8, 16, 33], |N| pt::nan::<N>(x, &a, k)); }
        let ia: Vec<i64> = (0..33).map(|_| x.below(2001) as i64 - 1000).collect();
        let ib: Vec<i64> = if x.chance(0.3) { ia.clone() } else { (0..33).map(|_| x.below(2001) as i64 - 1000).collect() };
        let is = x.below(101) as i64 - 50;
        gens!(x, n, [0, 1, 2, 3, 4, 5, 8, 16, 33], |N| pt::int::<N>(x, &ia, &ib, is));
    }
}
fn c19(x: &mut Cx) {
    while !x.stop() && x.more(4000) {
        let d = x.pick(&[1usize, 2, 3]);
        let n = gsize(x);
        let mut v = x.points(n.max(4), d);
        if x.chance(0.4) { for r in v.iter_mut() { for z in r.iter_mut() { if x.chance(0.4) { *z = fval(x); } } } }
        match d { 1 => bez::store::<1>(x, &v), 2 => bez::store::<2>(x, &v), _ => bez::store::<3>(x, &v) }
        v.truncate(n);
        gens!(x, n, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 25, 33], |N| match d { 1 => bez::store_gen::<1, N>(x, &v), 2 => bez::store_gen::<2, N>(x, &v), _ => bez::store_gen::<3, N>(x, &v) });
        if x.chance(0.3) {
            let combo = x.pick(&COMBOS);
            let mut u = bsp::knots(x, combo.1, combo.2, 99);
            if x.chance(0.3) { let z = x.pick(&u); for q in u.iter_mut() { *q -= z; } }
            for q in u.iter_mut() { if *q == 0.0 && x.chance(0.5) { *q = -0.0; } }
            if x.chance(0.1) { let e = u.len() - 1; u[0] = f64::NEG_INFINITY; u[e] = f64::INFINITY; }
            // knots that differ by less than a rounding error stay as they are
            if x.chance(0.2) { let i = x.below(u.len()); u[i] = if i > 0 && u[i] > u[i - 1] { bsp::next_down(u[i]) } else { u[i] }; }
            let v = x.points(combo.1, 2);
            combos!(run_bsp!(x, combo, |K, C, D| bsp::construct::<K, C, D>(x, &u, &v)));
        }
    }
}
fn c20(x: &mut Cx) {
    while !x.stop() && x.more(3000) {
        let d = x.pick(&[1usize, 2, 3]);
        let v = boxpts(x, 4, d);
        let t = x.tany();
        let n = if x.chance(0.15) { 0 } else { x.steps() };
        let tl = match x.below(3) { 0 => x.pick(&[0.0, 1e-9, 1e9, -1.0]), 1 => x.dictval(), _ => x.unit() };
        match d { 1 => bez::calm_low::<1>(x, &v, t, n, tl), 2 => bez::calm_low::<2>(x, &v, t, n, tl), _ => bez::calm_low::<3>(x, &v, t, n, tl) }
        let m = gsize(x);
        let w = x.points(m, d);
        gens!(x, m, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 20, 25, 33], |N| match d { 1 => bez::calm_gen::<1, N>(x, &w, t, n), 2 => bez::calm_gen::<2, N>(x, &w, t, n), _ => bez::calm_gen::<3, N>(x, &w, t, n) });
        let m = 2 + x.below(7);
        let w = x.points(m, 2);
        gens!(x, m, [2, 3, 4, 5, 6, 7, 8], |N| bez::calm_der::<2, N>(x, &w, t));
        let pv: Vec<f64> = (0..33).map(|_| x.coord(0)).collect();
        let m = x.pick(&[0usize, 1, 2, 3, 4, 5, 8, 16, 33]);
        gens!(x, m, [0, 1, 2, 3, 4, 5, 8, 16, 33], |N| pt::calm::<N>(x, &pv, t));
        let combo = x.pick(&COMBOS);
        let (_, c, dg) = combo;
        let u = bsp::knots(x, c, dg, 99);
        let w = x.points(c, 2);
        let tt = match x.below(4) { 0 => x.pick(&u), 1 => x.range(u[0] - 1.0, u[u.len() - 1] + 1.0), _ => { let p = bsp::params(x, &u, c, dg, 2); x.pick(&p) } };
        combos!(run_bsp!(x, combo, |K, C, D| bsp::calm::<K, C, D>(x, &u, &w, tt, n)));
        if dg > 0 { combos!(run_bsp_pos!(x, combo, |K, C, D| bsp::calm_der::<K, C, D>(x, &u, &w, tt))); }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|z| z == k).and_then(|i| a.get(i + 1)).cloned();
    let pid = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|z| z.parse().ok()).unwrap_or(1);
    let tier = get("--tier").unwrap_or("quick".into());
    let dict = get("--dict").map(|z| z.split(',').filter_map(|w| w.parse().ok()).collect()).unwrap_or_default();
    let only = get("--only").and_then(|z| z.parse().ok());
    let secs: u64 = get("--secs").and_then(|z| z.parse().ok()).unwrap_or(60);
    let scale = match tier.as_str() { "quick" => 3, "deep" => 400, _ => 100 };
    std::panic::set_hook(Box::new(|_| {}));
    watchdog(Duration::from_secs(20));
    let mut x = Cx { pid: pid.clone(), seed, s: seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x5bd1e995, only, n: 0, run: 0, it: 0, seen: Default::default(), samples: vec![], viol: vec![], dict, scale, deadline: Instant::now() + Duration::from_secs(secs) };
    let t = Instant::now();
    match pid.as_str() {
        #[cfg(feature = "c01")]
        "C01" => c01(&mut x), #[cfg(feature = "c02")]
        "C02" => c02(&mut x), #[cfg(feature = "c03")]
        "C03" => c03(&mut x), #[cfg(feature = "c04")]
        "C04" => c04(&mut x), #[cfg(feature = "c05")]
        "C05" => c05(&mut x),
        #[cfg(feature = "c06")]
        "C06" => c06(&mut x), #[cfg(feature = "c07")]
        "C07" => c07(&mut x), #[cfg(feature = "c08")]
        "C08" => c08(&mut x), #[cfg(feature = "c09")]
        "C09" => c09(&mut x), #[cfg(feature = "c10")]
        "C10" => c10(&mut x),
        #[cfg(feature = "c11")]
        "C11" => c11(&mut x), #[cfg(feature = "c12")]
        "C12" => c12(&mut x), #[cfg(feature = "c13")]
        "C13" => c13(&mut x), #[cfg(feature = "c14")]
        "C14" => c14(&mut x), #[cfg(feature = "c15")]
        "C15" => c15(&mut x),
        #[cfg(feature = "c16")]
        "C16" => c16(&mut x), #[cfg(feature = "c17")]
        "C17" => c17(&mut x), #[cfg(feature = "c18")]
        "C18" => c18(&mut x), #[cfg(feature = "c19")]
        "C19" => c19(&mut x), #[cfg(feature = "c20")]
        "C20" => c20(&mut x),
        _ => { eprintln!("unknown property {pid}"); std::process::exit(2) }
    }
    for (id, d, m) in &x.viol { println!("{}", jline(&[("kind", "violation"), ("case", &id.to_string()), ("input", d), ("observed", m)])); }
    println!("{}", jline(&[("kind", "summary"), ("property", &pid), ("tier", &tier), ("seed", &seed.to_string()), ("cases", &x.run.to_string()), ("distinct", &x.seen.len().to_string()), ("seconds", &format!("{:.2}", t.elapsed().as_secs_f64())),
        ("complete", if Instant::now() > x.deadline { "time limit reached" } else { "yes" }), ("samples", &x.samples.join(" || "))]));
    std::process::exit(if x.viol.is_empty() { 0 } else { 1 });
}
