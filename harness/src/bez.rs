//! Checks of Bezier curves (C01..C10, C17, C19, C20).
use crate::cx::Cx;
use crate::num::*;
use crate::oracle::*;
use stroke::{Bezier, CubicBezier, LineSegment, Point, PointN, QuadraticBezier, Spline};
use stroke::bezier_segment::BezierSegment;

pub type R = Result<(), String>;
pub type Pts = Vec<Vec<f64>>;

pub fn show(x: &[Q]) -> String { format!("{:?}", x.iter().map(|x| *x as f64).collect::<Vec<_>>()) }
pub fn co<P: Tp>(p: &P) -> Vec<Q> { (0..P::D).map(|i| p.co(i)).collect() }
pub fn near<P: Tp>(what: &str, got: &P, want: &[Q], tol: Q) -> R {
    for i in 0..P::D {
        let e = qabs(got.co(i) - want[i]);
        if !(e <= tol) { return Err(format!("{what}: got {} expected {} (coordinate {i} off by {:e}, tolerance {:e})", show(&co(got)), show(want), e as f64, tol as f64)); }
    }
    Ok(())
}
pub fn nears(what: &str, got: Q, want: Q, tol: Q) -> R {
    let e = qabs(got - want);
    if !(e <= tol) { return Err(format!("{what}: got {:?} expected {:?} (off by {:e}, tolerance {:e})", got as f64, want as f64, e as f64, tol as f64)); }
    Ok(())
}
pub fn arr<P: Tp, const N: usize>(v: &[Vec<f64>]) -> [P; N] { core::array::from_fn(|i| P::mk(&v[i])) }
/// bound for de Casteljau at t: (|1-t|+|t|)^n max|p|
pub fn amp(v: &[Vec<f64>], t: Q) -> Q { powi(qabs(1.0 - t) + qabs(t), v.len().saturating_sub(1)) * maxabs(v) }
pub fn tol<P: Tp>(v: &[Vec<f64>], t: Q) -> Q { (P::U as Q) * 256.0 * (v.len() as Q) * amp(v, t) }

/// the kinds of Bezier curve
pub trait Crv<P: Tp>: Sized + Copy {
    const KIND: &'static str;
    const N: usize;
    fn mk(v: &[Vec<f64>]) -> Self;
    fn evals(&self, t: f64) -> Vec<(&'static str, P)>;
    fn ax(&self, _t: f64, _a: usize) -> Option<Q> { None }
    fn sp(&self, t: f64) -> (Self, Self);
}
impl<P: Tp> Crv<P> for LineSegment<P> {
    const KIND: &'static str = "LineSegment";
    const N: usize = 2;
    fn mk(v: &[Vec<f64>]) -> Self { LineSegment::new(P::mk(&v[0]), P::mk(&v[1])) }
    fn evals(&self, t: f64) -> Vec<(&'static str, P)> { vec![("eval", self.eval(P::s(t)))] }
    fn ax(&self, t: f64, a: usize) -> Option<Q> { Some(self.axis(P::s(t), a).q()) }
    fn sp(&self, t: f64) -> (Self, Self) { self.split(P::s(t)) }
}
impl<P: Tp> Crv<P> for QuadraticBezier<P> {
    const KIND: &'static str = "QuadraticBezier";
    const N: usize = 3;
    fn mk(v: &[Vec<f64>]) -> Self { QuadraticBezier::new(P::mk(&v[0]), P::mk(&v[1]), P::mk(&v[2])) }
    fn evals(&self, t: f64) -> Vec<(&'static str, P)> { vec![("eval", self.eval(P::s(t))), ("eval_casteljau", self.eval_casteljau(P::s(t)))] }
    fn ax(&self, t: f64, a: usize) -> Option<Q> { Some(self.axis(P::s(t), a).q()) }
    fn sp(&self, t: f64) -> (Self, Self) { self.split(P::s(t)) }
}
impl<P: Tp> Crv<P> for CubicBezier<P> {
    const KIND: &'static str = "CubicBezier";
    const N: usize = 4;
    fn mk(v: &[Vec<f64>]) -> Self { CubicBezier::new(P::mk(&v[0]), P::mk(&v[1]), P::mk(&v[2]), P::mk(&v[3])) }
    fn evals(&self, t: f64) -> Vec<(&'static str, P)> { vec![("eval", self.eval(P::s(t))), ("eval_casteljau", self.eval_casteljau(P::s(t)))] }
    fn ax(&self, t: f64, a: usize) -> Option<Q> { Some(self.axis(P::s(t), a).q()) }
    fn sp(&self, t: f64) -> (Self, Self) { self.split(P::s(t)) }
}
impl<P: Tp, const N: usize> Crv<P> for Bezier<P, N> {
    const KIND: &'static str = "Bezier";
    const N: usize = N;
    fn mk(v: &[Vec<f64>]) -> Self { Bezier::new(arr(v)) }
    fn evals(&self, t: f64) -> Vec<(&'static str, P)> { vec![("eval", self.eval(P::s(t))), ("Spline::eval", Spline::eval(self, P::s(t)))] }
    fn sp(&self, t: f64) -> (Self, Self) { self.split(P::s(t)) }
}
/// segment of a given degree
#[derive(Clone, Copy)]
pub struct Seg<P: Point, const N: usize>(pub BezierSegment<P>);
impl<P: Tp, const N: usize> Crv<P> for Seg<P, N> {
    const KIND: &'static str = "BezierSegment";
    const N: usize = N;
    fn mk(v: &[Vec<f64>]) -> Self {
        Seg(match N { 2 => LineSegment::<P>::mk(v).into(), 3 => QuadraticBezier::<P>::mk(v).into(), _ => CubicBezier::<P>::mk(v).into() })
    }
    fn evals(&self, t: f64) -> Vec<(&'static str, P)> { vec![("eval", self.0.eval::<f64>(P::s(t)))] }
    fn sp(&self, t: f64) -> (Self, Self) { let (a, b) = segsplit(&self.0, t); (Seg(a), Seg(b)) }
}
fn segsplit<P: Tp>(s: &BezierSegment<P>, t: f64) -> (BezierSegment<P>, BezierSegment<P>) { s.split(P::s(t)) }

// ------------------------------------------------------------------------------------------- C01, C02
pub fn eval<P: Tp, C: Crv<P>>(x: &mut Cx, v: &Pts, ts: &[f64]) {
    for &t in ts {
        x.case(|| format!("{} over {}: control points {:?} at t={t:?}", C::KIND, P::NAME, v), || {
            let c = C::mk(v);
            let want = curve(v, t as Q);
            for (w, p) in c.evals(t) { near(w, &p, &want, tol::<P>(v, t as Q))?; }
            for a in 0..P::D { if let Some(g) = c.ax(t, a) { nears(&format!("axis {a}"), g, want[a], tol::<P>(v, t as Q))?; } }
            Ok(())
        });
    }
}
// ------------------------------------------------------------------------------------------- C03
pub fn split<P: Tp, C: Crv<P>>(x: &mut Cx, v: &Pts, ts: &[f64], ss: &[f64]) {
    for &t in ts {
        x.case(|| format!("{} over {}: control points {:?} split at t={t:?}, pieces sampled at {:?}", C::KIND, P::NAME, v, ss), || {
            let c = C::mk(v);
            let (l, r) = c.sp(t);
            let t = t as Q;
            for &s in ss {
                let g = tol::<P>(v, t) * 4.0 * powi(qabs(1.0 - s as Q) + qabs(s as Q), C::N - 1);
                for (w, p) in l.evals(s) { near(&format!("left piece, {w}({s:?})"), &p, &curve(v, t * s as Q), g)?; }
                for (w, p) in r.evals(s) { near(&format!("right piece, {w}({s:?})"), &p, &curve(v, t + (1.0 - t) * s as Q), g)?; }
            }
            Ok(())
        });
    }
}
// ------------------------------------------------------------------------------------------- C05
pub fn ends<P: Tp, C: Crv<P>>(x: &mut Cx, v: &Pts, ts: &[f64]) {
    x.case(|| format!("{} over {}: control points {:?}: ends and range at {:?}", C::KIND, P::NAME, v, ts), || {
        let c = C::mk(v);
        let n = v.len();
        let g = tol::<P>(v, 0.5);
        for (w, p) in c.evals(0.0) { near(&format!("{w}(0)"), &p, &co(&P::mk(&v[0])), g)?; }
        for (w, p) in c.evals(1.0) { near(&format!("{w}(1)"), &p, &co(&P::mk(&v[n - 1])), g)?; }
        for &t in ts {
            for a in 0..P::D {
                let k = col(v, a);
                let (lo, hi) = k.iter().fold((k[0], k[0]), |(l, h), z| (qmin(l, *z), qmax(h, *z)));
                for (w, p) in c.evals(t) {
                    if !(p.co(a) >= lo - g && p.co(a) <= hi + g) {
                        return Err(format!("{w}({t:?}) has coordinate {a} = {:?} outside [{:?}, {:?}] of the control points", p.co(a) as f64, lo as f64, hi as f64));
                    }
                }
            }
        }
        Ok(())
    });
}
// ------------------------------------------------------------------------------------------- C04
pub fn deriv_low<P: Tp>(x: &mut Cx, v: &Pts, ts: &[f64]) {
    let n = v.len() - 1;
    for &t in ts {
        x.case(|| format!("degree {n} curve over {}: control points {:?}, derivative at t={t:?}", P::NAME, v), || {
            let want: Vec<Q> = (0..P::D).map(|a| dbern(&col(v, a), t as Q)).collect();
            let g = tol::<P>(v, t as Q) * 16.0;
            match n {
                1 => near("LineSegment::derivative", &LineSegment::<P>::mk(v).derivative(), &want, g)?,
                2 => {
                    let c = QuadraticBezier::<P>::mk(v);
                    near("QuadraticBezier::derivative().eval", &c.derivative().eval(P::s(t)), &want, g)?;
                    for a in 0..P::D { nears(&format!("QuadraticBezier::dd axis {a}"), c.dd(P::s(t), a).q(), want[a], g.max(tol::<PointN<f64, 1>>(v, t as Q) * 16.0))?; }
                }
                _ => {
                    let c = CubicBezier::<P>::mk(v);
                    near("CubicBezier::derivative().eval", &c.derivative().eval(P::s(t)), &want, g)?;
                    for a in 0..P::D { nears(&format!("CubicBezier::dd axis {a}"), c.dd(P::s(t), a).q(), want[a], g)?; }
                }
            }
            Ok(())
        });
    }
}
pub fn deriv_gen<P: Tp, const N: usize>(x: &mut Cx, v: &Pts, ts: &[f64]) where [(); N - 1]: {
    for &t in ts {
        x.case(|| format!("Bezier<{N}> over {}: control points {:?}, derivative at t={t:?}", P::NAME, v), || {
            let want: Vec<Q> = (0..P::D).map(|a| dbern(&col(v, a), t as Q)).collect();
            let d = Bezier::<P, N>::mk(v).derivative();
            near("Bezier::derivative().eval", &d.eval(P::s(t)), &want, tol::<P>(v, t as Q) * 16.0 * N as Q)
        });
    }
}
// ------------------------------------------------------------------------------------------- C06
pub trait Bx<P: Tp> { fn bx(&self) -> Vec<(Q, Q)>; }
macro_rules! bxs { ($($c:ident),*) => { $(
    impl<const D: usize> Bx<PointN<f64, D>> for $c<PointN<f64, D>> where [(); <PointN<f64, D> as Point>::DIM]: { fn bx(&self) -> Vec<(Q, Q)> { self.bounding_box().iter().map(|(a, b)| (a.q(), b.q())).collect() } }
    impl<const D: usize> Bx<V<D>> for $c<V<D>> where [(); <V<D> as Point>::DIM]: { fn bx(&self) -> Vec<(Q, Q)> { self.bounding_box().iter().map(|(a, b)| (a.q(), b.q())).collect() } } )* } }
bxs!(LineSegment, QuadraticBezier, CubicBezier);
pub fn bbox<P: Tp, C: Crv<P> + Bx<P>>(x: &mut Cx, v: &Pts) {
    x.case(|| format!("{} over {}: control points {:?}: bounding box", C::KIND, P::NAME, v), || {
        let b = C::mk(v).bx();
        if b.len() != P::D { return Err(format!("{} axes instead of {}", b.len(), P::D)); }
        for a in 0..P::D {
            let k = col(v, a);
            let (lo, hi) = extremes(&k);
            let m = k.iter().fold(0.0 as Q, |m, z| qmax(m, qabs(*z)));
            let g = (P::U as Q) * 4096.0 * m + (if C::N == 2 { 0.0 } else { 8.0 * EPS as Q });
            nears(&format!("lower bound of axis {a}"), b[a].0, lo, g)?;
            nears(&format!("upper bound of axis {a}"), b[a].1, hi, g)?;
        }
        Ok(())
    });
}
// ------------------------------------------------------------------------------------------- C07
pub fn segdist(a: &[Q], b: &[Q], p: &[Q]) -> Q {
    let l2 = a.iter().zip(b).fold(0.0 as Q, |s, (x, y)| s + (*x - *y) * (*x - *y));
    if l2 < EPS as Q { return dist(a, p); }
    let dot = (0..a.len()).fold(0.0 as Q, |s, i| s + (p[i] - a[i]) * (b[i] - a[i]));
    let t = qmin(qmax(dot / l2, 0.0), 1.0);
    let f: Vec<Q> = (0..a.len()).map(|i| a[i] + (b[i] - a[i]) * t).collect();
    dist(&f, p)
}
pub fn linedist<P: Tp>(x: &mut Cx, v: &Pts, p: &[f64]) {
    let (a, b): (Vec<Q>, Vec<Q>) = (v[0].iter().map(|z| *z as Q).collect(), v[1].iter().map(|z| *z as Q).collect());
    let q: Vec<Q> = p.iter().map(|z| *z as Q).collect();
    let l2 = dist(&a, &b) * dist(&a, &b);
    if l2 > 0.0 && qabs(l2 / (EPS as Q) - 1.0) < 1e-6 { return; }
    x.case(|| format!("LineSegment over {}: {:?}, distance to {:?}", P::NAME, v, p), || {
        let d = LineSegment::<P>::mk(v).distance_to_point(P::mk(p)).q();
        let m = qmax(maxabs(v), maxabs(&[p.to_vec()]));
        nears("distance_to_point", d, segdist(&a, &b, &q), (P::U as Q) * 4096.0 * m)
    });
}
// ------------------------------------------------------------------------------------------- C08
pub trait Dst<P: Tp> { fn dst(&self, p: P) -> Q; fn len(&self, n: usize) -> Q; }
macro_rules! dsts { ($($c:ty),*) => { $( impl<P: Tp> Dst<P> for $c { fn dst(&self, p: P) -> Q { self.distance_to_point(p).q() } fn len(&self, n: usize) -> Q { self.arclen(n).q() } } )* } }
dsts!(QuadraticBezier<P>, CubicBezier<P>);
impl<P: Tp, const N: usize> Dst<P> for Bezier<P, N> { fn dst(&self, p: P) -> Q { self.distance_to_point(p).q() } fn len(&self, n: usize) -> Q { self.arclen(n).q() } }
pub fn truemin(v: &Pts, p: &[Q]) -> Q {
    // coarse search in f64 (128 cells), refined in f128 around the best cells
    let f = |t: f64| -> f64 { (0..p.len()).map(|a| { let c: Vec<f64> = v.iter().map(|r| r[a]).collect(); let mut w = c; let n = w.len(); for i in 1..n { for j in 0..n - i { w[j] = w[j] * (1.0 - t) + w[j + 1] * t; } } (w[0] - p[a] as f64).powi(2) }).sum() };
    let n = 128;
    let mut g: Vec<(f64, usize)> = (0..=n).map(|i| (f(i as f64 / n as f64), i)).collect();
    g.sort_by(|a, b| cmp(&a.0, &b.0));
    let mut best = qmin(dist(&curve(v, 0.0), p), dist(&curve(v, 1.0), p));
    for &(_, i) in g.iter().take(4) {
        let (mut a, mut b) = ((i.max(1) - 1) as Q / n as Q, (i + 1).min(n) as Q / n as Q);
        for _ in 0..50 {
            let (c, d) = (a + (b - a) * 0.382, a + (b - a) * 0.618);
            let (y, z) = (dist(&curve(v, c), p), dist(&curve(v, d), p));
            best = qmin(best, qmin(y, z));
            if y < z { b = d; } else { a = c; }
        }
    }
    best
}
pub fn curvedist<P: Tp, C: Crv<P> + Dst<P>>(x: &mut Cx, v: &Pts, p: &[f64]) {
    x.case(|| format!("{} over {}: control points {:?}, distance to {:?}", C::KIND, P::NAME, v, p), || {
        let q: Vec<Q> = p.iter().map(|z| *z as Q).collect();
        let d = C::mk(v).dst(P::mk(p));
        let m = qmax(maxabs(v), maxabs(&[p.to_vec()]));
        let mut up = dist(&curve(v, 0.0), &q);
        let mut at = 0;
        for i in 1..=64 { let e = dist(&curve(v, i as Q / 64.0), &q); if e < up { up = e; at = i; } }
        if !(d <= up + 1e-11 * m) { return Err(format!("distance {:?} exceeds the distance {:?} to the curve's point at {at}/64", d as f64, up as f64)); }
        let lo = truemin(v, &q);
        if !(d >= lo - 1e-7 * m) { return Err(format!("distance {:?} is below the true distance {:?}", d as f64, lo as f64)); }
        Ok(())
    });
}
// ------------------------------------------------------------------------------------------- C09
pub fn arclen<P: Tp, C: Crv<P> + Dst<P>>(x: &mut Cx, v: &Pts, n: usize) {
    x.case(|| format!("{} over {}: control points {:?}, arc length with {n} steps", C::KIND, P::NAME, v), || {
        let g = C::mk(v).len(n);
        let pts: Vec<Vec<Q>> = (0..=n).map(|i| curve(v, i as Q / n as Q)).collect();
        let want = (0..n).fold(0.0 as Q, |s, i| s + dist(&pts[i], &pts[i + 1]));
        nears("arclen", g, want, 1e-11 * maxabs(v) * (C::N as Q) * qsqrt(n as Q))
    });
}
// ------------------------------------------------------------------------------------------- C10
pub fn flat<P: Tp>(x: &mut Cx, v: &Pts, tl: f64, exact: bool) {
    let n = v.len();
    let r: Vec<Vec<Q>> = v.iter().map(|p| p.iter().map(|z| *z as Q).collect()).collect();
    let m = maxabs(v);
    let mut close = false;
    let d2 = dist(&r[0], &r[n - 1]) * dist(&r[0], &r[n - 1]);
    if d2 > 0.0 && qabs(d2 / (EPS as Q) - 1.0) < 1e-6 { return; }
    let mut le = |d: Q, sure: bool| -> bool { if !(d == 0.0 && sure) && qabs(d - tl as Q) <= 1e-9 * m { close = true; } d <= tl as Q };
    let mut lin = d2 >= EPS as Q;
    for i in 1..n - 1 { let b = le(segdist(&r[0], &r[n - 1], &r[i]), r[i] == r[0]); lin = lin && b; }
    let mut pt = le(dist(&r[0], &r[n - 1]), true);
    let b = le(dist(&r[0], &r[1]), true);
    pt = pt && b;
    if n == 4 { let b = le(dist(&r[3], &r[2]), true); pt = pt && b; }
    if close && !exact { return; }
    x.case(|| format!("degree {} curve over {}: control points {:?}, tolerance {tl:?}", n - 1, P::NAME, v), || {
        let (gl, gp, base) = if n == 3 { let c = QuadraticBezier::<P>::mk(v); (c.is_linear(P::s(tl)), c.is_a_point(P::s(tl)), c.baseline()) } else { let c = CubicBezier::<P>::mk(v); (c.is_linear(P::s(tl)), c.is_a_point(P::s(tl)), c.baseline()) };
        if gl != lin { return Err(format!("is_linear is {gl}, expected {lin}")); }
        if gp != pt { return Err(format!("is_a_point is {gp}, expected {pt}")); }
        near("baseline start", &base.eval(P::s(0.0)), &r[0], tol::<P>(v, 0.0))?;
        near("baseline end", &base.eval(P::s(1.0)), &r[n - 1], tol::<P>(v, 0.0))?;
        for s in [BezierSegment::from(LineSegment::<P>::mk(&vec![v[0].clone(), v[n - 1].clone()]))] {
            if !s.is_linear(P::s(tl)) { return Err("a linear segment is not linear".into()); }
        }
        Ok(())
    });
}
// ------------------------------------------------------------------------------------------- C17
pub fn segment<P: Tp>(x: &mut Cx, v: &Pts, ts: &[f64], tl: f64) {
    x.case(|| format!("BezierSegment of degree {} over {}: control points {:?}, t in {:?}, tolerance {tl:?}", v.len() - 1, P::NAME, v, ts), || {
        let n = v.len();
        let g = |t: f64| tol::<P>(v, t as Q);
        let q = |p: &P| co(p);
        let (seg, lin): (BezierSegment<P>, Option<bool>) = match n {
            2 => (LineSegment::<P>::mk(v).into(), Some(true)),
            3 => { let c = QuadraticBezier::<P>::mk(v); (c.into(), Some(c.is_linear(P::s(tl)))) }
            _ => { let c = CubicBezier::<P>::mk(v); (c.into(), Some(c.is_linear(P::s(tl)))) }
        };
        if seg.is_linear(P::s(tl)) != lin.unwrap() { return Err(format!("is_linear is {}, the wrapped curve says {}", seg.is_linear(P::s(tl)), lin.unwrap())); }
        if seg.start() != P::mk(&v[0]) { return Err(format!("start is {:?}", seg.start())); }
        if seg.end() != P::mk(&v[n - 1]) { return Err(format!("end is {:?}", seg.end())); }
        if seg.baseline() != LineSegment::new(P::mk(&v[0]), P::mk(&v[n - 1])) { return Err(format!("baseline is {:?}", seg.baseline())); }
        for &t in ts {
            let e = seg.eval::<f64>(P::s(t));
            let w = match n { 2 => LineSegment::<P>::mk(v).eval(P::s(t)), 3 => QuadraticBezier::<P>::mk(v).eval(P::s(t)), _ => CubicBezier::<P>::mk(v).eval(P::s(t)) };
            near(&format!("eval({t:?})"), &e, &q(&w), g(t))?;
            let (a, b) = segsplit(&seg, t);
            match (n, a, b) {
                (2, BezierSegment::Linear(a), BezierSegment::Linear(b)) => { let (c, d) = LineSegment::<P>::mk(v).split(P::s(t)); if (a, b) != (c, d) { return Err(format!("split({t:?}) gives {a:?}, {b:?} instead of {c:?}, {d:?}")); } }
                (3, BezierSegment::Quadratic(a), BezierSegment::Quadratic(b)) => { let (c, d) = QuadraticBezier::<P>::mk(v).split(P::s(t)); if (a, b) != (c, d) { return Err(format!("split({t:?}) gives {a:?}, {b:?} instead of {c:?}, {d:?}")); } }
                (4, BezierSegment::Cubic(a), BezierSegment::Cubic(b)) => { let (c, d) = CubicBezier::<P>::mk(v).split(P::s(t)); if (a, b) != (c, d) { return Err(format!("split({t:?}) gives {a:?}, {b:?} instead of {c:?}, {d:?}")); } }
                (_, a, b) => return Err(format!("split({t:?}) changes the kind: {a:?}, {b:?}")),
            }
        }
        Ok(())
    });
}
// ------------------------------------------------------------------------------------------- C19
fn bits<const D: usize>(p: &PointN<f64, D>) -> Vec<u64> { p.into_iter().map(|x| x.to_bits()).collect() }
fn bitsv(p: &[f64]) -> Vec<u64> { p.iter().map(|x| x.to_bits()).collect() }
fn same(what: &str, g: &[Vec<u64>], v: &[Vec<f64>]) -> R {
    let w: Vec<Vec<u64>> = v.iter().map(|p| bitsv(p)).collect();
    if g != &w[..] { return Err(format!("{what} gives {:?} instead of {:?}", g.iter().map(|r| r.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()).collect::<Vec<_>>(), v)); }
    Ok(())
}
pub fn store<const D: usize>(x: &mut Cx, v: &Pts) {
    x.case(|| format!("stored points of line, quadratic and cubic curves from {:?}", v), || {
        type A<const D: usize> = PointN<f64, D>;
        let p: Vec<A<D>> = v.iter().map(|r| A::<D>::mk(r)).collect();
        let q = QuadraticBezier::new(p[0], p[1], p[2]);
        same("QuadraticBezier::control_points", &q.control_points().iter().map(bits).collect::<Vec<_>>(), &v[..3])?;
        let c = CubicBezier::new(p[0], p[1], p[2], p[3]);
        same("CubicBezier::control_points", &c.control_points().iter().map(bits).collect::<Vec<_>>(), &v[..4])?;
        let s = BezierSegment::from(LineSegment::new(p[0], p[1]));
        same("LineSegment", &[bits(&s.start()), bits(&s.end())], &v[..2])?;
        let s = BezierSegment::from(q);
        same("QuadraticBezier ends", &[bits(&s.start()), bits(&s.end())], &[v[0].clone(), v[2].clone()])?;
        let s = BezierSegment::from(c);
        same("CubicBezier ends", &[bits(&s.start()), bits(&s.end())], &[v[0].clone(), v[3].clone()])?;
        Ok(())
    });
}
pub fn store_gen<const D: usize, const N: usize>(x: &mut Cx, v: &Pts) {
    x.case(|| format!("Bezier<{N}>: stored points and iteration from {:?}", v), || {
        let mut b: Bezier<PointN<f64, D>, N> = Bezier::new(arr(v));
        same("control_points", &b.control_points().iter().map(bits).collect::<Vec<_>>(), v)?;
        let _ = if v.iter().all(|r| r.iter().all(|z| z.abs() < 1e9)) && N > 0 { Some((b.eval(0.3), b.split(0.4).0.eval(0.1), b.arclen(3), b.distance_to_point(PointN::mk(&v[0])))) } else { None };
        same("control_points after observing", &b.control_points().iter().map(bits).collect::<Vec<_>>(), v)?;
        let mut it = b.into_iter();
        let mut g = vec![];
        while let Some(p) = it.next() { g.push(bits(&p)); }
        same("by-value iteration", &g, v)?;
        if N > 1 { let rev: Vec<Vec<u64>> = { let mut r: Vec<_> = b.into_iter().rev().map(|p| bits(&p)).collect(); r.reverse(); r }; same("reverse iteration", &rev, v)?; }
        let mut g = vec![];
        let mut i = 0;
        let mut w = v.clone();
        for p in &mut b { g.push(bits(p)); w[i] = (0..D).map(|k| (i * 10 + k) as f64 + 0.25).collect(); *p = PointN::mk(&w[i]); i += 1; }
        same("mutable iteration", &g, v)?;
        same("control points written through mutable iteration", &b.control_points().iter().map(bits).collect::<Vec<_>>(), &w)?;
        Ok(())
    });
}
// ------------------------------------------------------------------------------------------- C20
pub fn calm_low<const D: usize>(x: &mut Cx, v: &Pts, t: f64, n: usize, tl: f64) where [(); <PointN<f64, D> as Point>::DIM]: {
    x.case(|| format!("every operation on line, quadratic, cubic and segment with control points {:?}, t={t:?}, steps={n}, tolerance={tl:?}", v), || {
        type A<const D: usize> = PointN<f64, D>;
        let p = A::<D>::mk(&v[v.len() - 1]);
        let l = LineSegment::<A<D>>::mk(v);
        let (a, b) = l.split(t);
        let _ = (a.eval(t), b.eval(t), l.eval(t), l.distance_to_point(p), l.derivative(), l.bounding_box());
        let q = QuadraticBezier::<A<D>>::mk(v);
        let (a, b) = q.split(t);
        let _ = (a.eval(t), b.eval_casteljau(t), q.control_points(), q.derivative(), q.arclen(n), q.distance_to_point(p), q.baseline(), q.is_linear(tl), q.is_a_point(tl), q.bounding_box());
        let c = CubicBezier::<A<D>>::mk(v);
        let (a, b) = c.split(t);
        let _ = (a.eval(t), b.eval_casteljau(t), c.control_points(), c.derivative(), c.arclen(n), c.distance_to_point(p), c.baseline(), c.is_linear(tl), c.is_a_point(tl), c.bounding_box());
        for k in 0..D { let _ = (l.axis(t, k), q.axis(t, k), q.dd(t, k), c.axis(t, k), c.dd(t, k)); }
        for s in [BezierSegment::from(l), q.into(), c.into()] {
            let _ = (s.eval::<f64>(t), s.start(), s.end(), s.baseline(), s.is_linear(tl), s.split(t));
        }
        Ok(())
    });
}
pub fn calm_gen<const D: usize, const N: usize>(x: &mut Cx, v: &Pts, t: f64, n: usize) {
    x.case(|| format!("every operation on Bezier<{N}> with control points {:?}, t={t:?}, steps={n}", v), || {
        let mut b: Bezier<PointN<f64, D>, N> = Bezier::new(arr(v));
        let p = PointN::mk(&v[N - 1]);
        let (l, r) = b.split(t);
        let _ = (l.eval(t), r.eval(t), b.eval(t), Spline::eval(&b, t), b.arclen(n), b.distance_to_point(p), b.control_points());
        for z in &mut b { *z = p; }
        let _ = b.into_iter().count();
        Ok(())
    });
}
pub fn calm_der<const D: usize, const N: usize>(x: &mut Cx, v: &Pts, t: f64) where [(); N - 1]: {
    x.case(|| format!("derivative of Bezier<{N}> with control points {:?}, t={t:?}", v), || {
        let b: Bezier<PointN<f64, D>, N> = Bezier::new(arr(v));
        let _ = b.derivative().eval(t);
        Ok(())
    });
}
