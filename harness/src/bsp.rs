//! Checks of B-splines (C11..C16, C19, C20).
use crate::bez::{arr, co, near, nears, R};
use crate::cx::Cx;
use crate::num::*;
use crate::oracle::*;
use stroke::bspline::BSplineError;
use stroke::{BSpline, PointN};

/// knot vectors for degree d and c control points
pub fn knots(x: &mut Cx, c: usize, d: usize, inner_max: usize) -> Vec<f64> {
    let k = c + d + 1;
    let kind = x.below(9);
    let scale = x.pick(&[1.0, 1.0, 1.0, 0.1, 1e-3, 1e3, 0.3, 1e-9]);
    let off = if scale < 1e-6 { 0.0 } else { x.pick(&[0.0, 0.0, 0.0, -5.0, 100.0, -0.7, 3.0]) };
    let gap = |x: &mut Cx| match x.below(4) { 0 => 1.0, 1 => 0.5, 2 => 1e-3 + x.unit(), _ => x.pick(&[0.001, 0.25, 2.0, 7.0, 0.1]) };
    let mut u = vec![0.0; k];
    let mut v = 0.0;
    let (cs, ce) = match kind { 0 | 1 | 2 => (true, true), 3 => (true, false), 4 => (false, true), _ => (false, false) };
    let uniform = x.chance(0.3);
    let pm = x.pick(&[0.0, 0.2, 0.5]);
    let mut mult = 1;
    for i in 1..k {
        let forced_eq = (cs && i <= d) || (ce && i >= c + 1);
        let forced_gap = (cs && i == d + 1) || (ce && i == c);
        let eq = forced_eq || (!forced_gap && x.chance(pm) && mult < inner_max);
        if eq { mult += 1; } else { v += if uniform { 1.0 } else { gap(x) }; mult = 1; }
        u[i] = v;
    }
    if kind == 8 && inner_max > d && x.chance(0.3) { for z in u.iter_mut() { *z = 0.0; } }
    for z in u.iter_mut() { *z = *z * scale + off; }
    // rounding may merge or unsort nothing here: gaps are far above the rounding level
    u
}
/// parameters of the closed domain whose distance to smaller knots is 0 or not tiny
pub fn params(x: &mut Cx, u: &[f64], c: usize, d: usize, n: usize) -> Vec<f64> {
    let (a, b) = (u[d], u[c]);
    let mut t = vec![a, b];
    for i in d..=c { if x.chance(0.7) { t.push(u[i]); } }
    for _ in 0..n {
        let k = d + x.below(c - d);
        let f = match x.below(4) { 0 => x.pick(&[0.5, 0.25, 1e-6, 1.0 - 1e-6, 0.75, 1e-3]), _ => x.unit() };
        if u[k + 1] > u[k] { let z = u[k] + (u[k + 1] - u[k]) * f; if z == u[k] || z - u[k] > 1e-12 { t.push(z); } }
    }
    if x.chance(0.2) { let z = x.dictval(); if z >= a && z <= b && u.iter().all(|k| *k >= z || z - k > 1e-12 || z == *k) { t.push(z); } }
    t.retain(|z| *z >= a && *z <= b);
    t
}
pub fn next_up(x: f64) -> f64 { if x.is_nan() || x == f64::INFINITY { x } else if x == 0.0 { 5e-324 } else { let b = x.to_bits(); f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 }) } }
pub fn next_down(x: f64) -> f64 { -next_up(-x) }

pub fn mkb<P: Tp, const K: usize, const C: usize, const D: usize>(u: &[f64], v: &[Vec<f64>]) -> Result<BSpline<P, K, C, D>, BSplineError> {
    BSpline::new(core::array::from_fn(|i| P::s(u[i])), arr(v))
}
fn get<P: Tp, const K: usize, const C: usize, const D: usize>(u: &[f64], v: &[Vec<f64>]) -> Result<BSpline<P, K, C, D>, String> {
    mkb(u, v).map_err(|e| format!("construction of a valid B-spline fails with {e:?}"))
}
// ------------------------------------------------------------------------------------------- C11 (and the B-spline part of C19)
pub fn construct<const K: usize, const C: usize, const D: usize>(x: &mut Cx, u: &[f64], v: &[Vec<f64>]) {
    x.case(|| format!("BSpline<K={K}, C={C}, D={D}>::new knots {:?} points {:?}", u, v), || {
        let want = if C <= D { Err(BSplineError::TooFewControlPoints) } else if K < C + D + 1 { Err(BSplineError::TooFewKnots) } else if K > C + D + 1 { Err(BSplineError::TooManyKnots) }
            else if K >= 2 && (0..K - 1).any(|i| !(u[i] <= u[i + 1])) { Err(BSplineError::DecreasingKnots) } else { Ok(()) };
        let g = mkb::<PointN<f64, 2>, K, C, D>(u, v);
        match (&g, &want) {
            (Ok(b), Ok(())) => {
                let ku: Vec<u64> = b.knots().map(|z| z.to_bits()).collect();
                if ku != u.iter().map(|z| z.to_bits()).collect::<Vec<_>>() { return Err(format!("knots() gives {:?}", b.knots().collect::<Vec<_>>())); }
                let cp: Vec<Vec<u64>> = b.control_points().map(|p| p.into_iter().map(|z| z.to_bits()).collect()).collect();
                if cp != v.iter().map(|p| p.iter().map(|z| z.to_bits()).collect::<Vec<_>>()).collect::<Vec<_>>() { return Err(format!("control_points() gives {:?}", b.control_points().collect::<Vec<_>>())); }
                Ok(())
            }
            (Err(e), Err(w)) if e == w => Ok(()),
            (g, w) => Err(format!("got {} expected {}", match g { Ok(_) => "Ok".to_string(), Err(e) => format!("{e:?}") }, match w { Ok(_) => "Ok".to_string(), Err(e) => format!("{e:?}") })),
        }
    });
}
// ------------------------------------------------------------------------------------------- C12
pub fn domain<P: Tp, const K: usize, const C: usize, const D: usize>(x: &mut Cx, u: &[f64], v: &[Vec<f64>], ts: &[f64]) where [(); D + 1]: {
    for &t in ts {
        x.case(|| format!("BSpline<K={K}, C={C}, D={D}> over {} knots {:?} points {:?} at t={t:?}", P::NAME, u, v), || {
            let b = get::<P, K, C, D>(u, v)?;
            let (lo, hi) = b.knot_domain();
            if lo.q() != u[D] as Q || hi.q() != u[C] as Q { return Err(format!("knot_domain is ({:?}, {:?}), expected ({:?}, {:?})", lo, hi, u[D], u[C])); }
            let inside = u[D] <= t && t <= u[C];
            match b.eval(P::s(t)) {
                Ok(_) if inside => Ok(()),
                Err(BSplineError::KnotDomainViolation) if !inside => Ok(()),
                r => Err(format!("eval gives {:?} for t {} the domain [{:?}, {:?}]", r, if inside { "inside" } else { "outside" }, u[D], u[C])),
            }
        });
    }
}
// ------------------------------------------------------------------------------------------- C13
pub fn coxdeboor<P: Tp, const K: usize, const C: usize, const D: usize>(x: &mut Cx, u: &[f64], v: &[Vec<f64>], ts: &[f64]) where [(); D + 1]: {
    for &t in ts {
        x.case(|| format!("BSpline<K={K}, C={C}, D={D}> over {} knots {:?} points {:?} at t={t:?}", P::NAME, u, v), || {
            let b = get::<P, K, C, D>(u, v)?;
            let k = match span(u, C, D, t) { Some(k) => k, None => return Ok(()) };
            let p = b.eval(P::s(t)).map_err(|e| format!("eval fails with {e:?}"))?;
            near("eval", &p, &bspl(u, v, D, k, t as Q), 1e-13 * (D as Q + 1.0) * maxabs(v) * 4.0)
        });
    }
}
// ------------------------------------------------------------------------------------------- C14
pub fn local<P: Tp, const K: usize, const C: usize, const D: usize>(x: &mut Cx, u: &[f64], v: &[Vec<f64>], ts: &[f64], far: f64) where [(); D + 1]: {
    for &t in ts {
        x.case(|| format!("BSpline<K={K}, C={C}, D={D}> over {} knots {:?} points {:?} at t={t:?}, distant points moved by {far:?}", P::NAME, u, v), || {
            let b = get::<P, K, C, D>(u, v)?;
            let k = match span(u, C, D, t) { Some(k) => k, None => return Ok(()) };
            let p = b.eval(P::s(t)).map_err(|e| format!("eval fails with {e:?}"))?;
            let loc = &v[k - D..=k];
            let g = 1e-13 * (D as Q + 1.0) * maxabs(loc) * 4.0;
            for a in 0..P::D {
                let z = col(loc, a);
                let (lo, hi) = z.iter().fold((z[0], z[0]), |(l, h), z| (qmin(l, *z), qmax(h, *z)));
                if !(p.co(a) >= lo - g && p.co(a) <= hi + g) { return Err(format!("coordinate {a} = {:?} outside [{:?}, {:?}] of control points {}..={k}", p.co(a) as f64, lo as f64, hi as f64, k - D)); }
            }
            let mut w = v.to_vec();
            for i in 0..C { if i + D < k || i > k { for z in w[i].iter_mut() { *z += far; } } }
            let q = get::<P, K, C, D>(u, &w)?.eval(P::s(t)).map_err(|e| format!("eval fails with {e:?}"))?;
            near("after moving control points outside the span's support", &q, &co(&p), g)
        });
    }
}
// ------------------------------------------------------------------------------------------- C15
pub fn deriv<P: Tp, const K: usize, const C: usize, const D: usize>(x: &mut Cx, u: &[f64], v: &[Vec<f64>], ts: &[f64]) where [(); D + 1]:, [(); K - 2]:, [(); C - 1]:, [(); D - 1]:, [(); D - 1 + 1]: {
    for &t in ts {
        x.case(|| format!("derivative of BSpline<K={K}, C={C}, D={D}> over {} knots {:?} points {:?} at t={t:?}", P::NAME, u, v), || {
            let b = get::<P, K, C, D>(u, v)?;
            let d = b.derivative();
            let ku: Vec<Q> = d.knots().map(|z| z.q()).collect();
            if ku != u[1..K - 1].iter().map(|z| *z as Q).collect::<Vec<_>>() { return Err(format!("derivative has knots {:?}", d.knots().collect::<Vec<_>>())); }
            let (lo, hi) = d.knot_domain();
            if lo.q() != u[D] as Q || hi.q() != u[C] as Q { return Err(format!("derivative has domain ({lo:?}, {hi:?}), the curve ({:?}, {:?})", u[D], u[C])); }
            let k = match span(u, C, D, t) { Some(k) => k, None => return Ok(()) };
            let p = d.eval(P::s(t)).map_err(|e| format!("eval of the derivative fails with {e:?}"))?;
            // size of the derivative's control points near the span
            let mut m = 0.0 as Q;
            for i in k - D..k { for a in 0..P::D { m = qmax(m, qabs((D as Q) * (v[i + 1][a] as Q - v[i][a] as Q) / (u[i + D + 1] as Q - u[i + 1] as Q))); } }
            near("derivative", &p, &dbspl(u, v, D, k, t as Q), 1e-13 * (D as Q + 1.0) * m * 4.0 + 1e-300)
        });
    }
}
// ------------------------------------------------------------------------------------------- C16
pub fn arclen<P: Tp, const K: usize, const C: usize, const D: usize>(x: &mut Cx, u: &[f64], v: &[Vec<f64>], n: usize) where [(); D + 1]: {
    x.case(|| format!("BSpline<K={K}, C={C}, D={D}> over {} knots {:?} points {:?}, arc length with {n} steps", P::NAME, u, v), || {
        let b = get::<P, K, C, D>(u, v)?;
        let g = b.arclen(P::s(0.0).q() as usize + n).q();
        let (lo, hi) = (u[D] as Q, u[C] as Q);
        let pt = |i: usize| -> Vec<Q> {
            let t = if i == n { hi } else { lo + (hi - lo) * (i as Q) / (n as Q) };
            // the span of the real parameter
            let mut best = None;
            for k in D..C { if (u[k] as Q) <= t && t < u[k + 1] as Q { best = Some(k); } }
            if best.is_none() { for k in D..C { if u[k] < u[k + 1] { best = Some(k); } } }
            match best { Some(k) => bspl(u, v, D, k, t), None => vec![0.0; P::D] }
        };
        if !(lo < hi) { return nears("arclen over an empty domain", g, 0.0, 1e-12 * maxabs(v)); }
        let pts: Vec<Vec<Q>> = (0..=n).map(pt).collect();
        let want = (0..n).fold(0.0 as Q, |s, i| s + dist(&pts[i], &pts[i + 1]));
        // speed bound: parameters carry rounding errors
        let mut sp = 0.0 as Q;
        for i in 0..C - 1 { for a in 0..P::D { let den = u[i + D + 1] as Q - u[i + 1] as Q; if den > 0.0 { sp = qmax(sp, qabs((D as Q) * (v[i + 1][a] as Q - v[i][a] as Q) / den)); } } }
        let um = qmax(qabs(lo), qabs(hi));
        nears("arclen", g, want, 1e-11 * maxabs(v) * qsqrt(n as Q) + sp * um * 4e-15 * (n as Q))
    });
}
// ------------------------------------------------------------------------------------------- C20
pub fn calm<const K: usize, const C: usize, const D: usize>(x: &mut Cx, u: &[f64], v: &[Vec<f64>], t: f64, n: usize) where [(); D + 1]: {
    x.case(|| format!("every operation on BSpline<K={K}, C={C}, D={D}> knots {:?} points {:?} t={t:?} steps={n}", u, v), || -> R {
        let b = get::<PointN<f64, 2>, K, C, D>(u, v)?;
        let _ = (b.eval(t), b.knot_domain(), b.arclen(n), b.knots().count(), b.control_points().count(), b.clone().eval(t));
        Ok(())
    });
}
pub fn calm_der<const K: usize, const C: usize, const D: usize>(x: &mut Cx, u: &[f64], v: &[Vec<f64>], t: f64) where [(); D + 1]:, [(); K - 2]:, [(); C - 1]:, [(); D - 1]:, [(); D - 1 + 1]: {
    x.case(|| format!("derivative of BSpline<K={K}, C={C}, D={D}> knots {:?} points {:?} t={t:?}", u, v), || -> R {
        let b = get::<PointN<f64, 2>, K, C, D>(u, v)?;
        let d = b.derivative();
        let _ = (d.eval(t), d.knot_domain(), d.knots().count(), d.control_points().count());
        Ok(())
    });
}
