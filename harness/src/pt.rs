//! Checks of PointN (C18).
use crate::cx::Cx;
use crate::bez::R;
use stroke::{Point, PointN};

fn eqv<T: PartialEq + core::fmt::Debug>(what: &str, g: &[T], w: &[T]) -> R { if g != w { Err(format!("{what}: got {:?} expected {:?}", g, w)) } else { Ok(()) } }

pub fn float<const N: usize>(x: &mut Cx, a: &[f64], b: &[f64], s: f64) {
    x.case(|| format!("PointN<f64,{N}>: a={:?} b={:?} s={s:?}", a, b), || {
        let pa: PointN<f64, N> = PointN::new(core::array::from_fn(|i| a[i]));
        let pb: PointN<f64, N> = PointN::new(core::array::from_fn(|i| b[i]));
        let v = |p: PointN<f64, N>| p.into_iter().map(|z| z.to_bits()).collect::<Vec<u64>>();
        let w = |f: &dyn Fn(usize) -> f64| (0..N).map(|i| f(i).to_bits()).collect::<Vec<u64>>();
        eqv("new / iteration", &v(pa), &w(&|i| a[i]))?;
        eqv("a + b", &v(pa + pb), &w(&|i| a[i] + b[i]))?;
        eqv("a - b", &v(pa - pb), &w(&|i| a[i] - b[i]))?;
        eqv("a + s", &v(pa + s), &w(&|i| a[i] + s))?;
        eqv("a - s", &v(pa - s), &w(&|i| a[i] - s))?;
        eqv("a * s", &v(pa * s), &w(&|i| a[i] * s))?;
        eqv("default", &v(PointN::default()), &w(&|_| 0.0))?;
        let e = (0..N).all(|i| a[i] == b[i]);
        if (pa == pb) != e || (pa != pb) == e { return Err(format!("a == b is {}, expected {e}", pa == pb)); }
        if !(0..N).any(|i| a[i].is_nan()) && pa != pa { return Err("a != a".into()); }
        // one component differing
        for k in 0..N { let mut c = [0.0; N]; c.copy_from_slice(&a[..N]); c[k] = if a[k] == 0.5 { 0.75 } else { 0.5 }; if pa == PointN::new(c) { return Err(format!("equal although component {k} differs")); } }
        for k in 0..N { if Point::axis(&pa, k).to_bits() != a[k].to_bits() { return Err(format!("axis({k}) is {:?}", Point::axis(&pa, k))); } }
        if <PointN<f64, N> as Point>::DIM != N { return Err(format!("DIM is {}", <PointN<f64, N> as Point>::DIM)); }
        let q = (0..N).fold(0.0 as f128, |z, i| z + (a[i] as f128) * (a[i] as f128));
        let g = pa.squared_length() as f128;
        if a[..N].iter().all(|z| z.abs() < 1e100) && !((g - q) <= q * 1e-14 + 1e-300 && (q - g) <= q * 1e-14 + 1e-300) { return Err(format!("squared_length is {:?}, expected {:?}", g as f64, q as f64)); }
        let mut m = pa;
        let mut seen = vec![];
        let mut i = 0;
        for z in &mut m { seen.push(z.to_bits()); *z = i as f64 + 0.5; i += 1; }
        eqv("mutable iteration", &seen, &w(&|i| a[i]))?;
        eqv("after writing through mutable iteration", &v(m), &w(&|i| i as f64 + 0.5))?;
        eqv("unchanged operand", &v(pa), &w(&|i| a[i]))?;
        if pa.into_iter().len() != N { return Err("length of the iterator".into()); }
        eqv("reverse iteration", &pa.into_iter().rev().map(|z| z.to_bits()).collect::<Vec<_>>(), &(0..N).rev().map(|i| a[i].to_bits()).collect::<Vec<_>>())?;
        Ok(())
    });
}
/// equality where a component is not equal to itself
pub fn nan<const N: usize>(x: &mut Cx, a: &[f64], k: usize) {
    x.case(|| format!("PointN<f64,{N}>: a={:?} with component {k} NaN", a), || {
        let mut c = [0.0; N]; c.copy_from_slice(&a[..N]); let o = PointN::new(c); c[k] = f64::NAN;
        let p: PointN<f64, N> = PointN::new(c);
        if p == p || p == o || o == p { return Err("equal although a component is not".into()); }
        Ok(())
    });
}
/// every operation, result ignored
pub fn calm<const N: usize>(x: &mut Cx, a: &[f64], s: f64) {
    x.case(|| format!("every operation on PointN<f64,{N}>: a={:?} s={s:?}", a), || -> R {
        let p: PointN<f64, N> = PointN::new(core::array::from_fn(|i| a[i]));
        let mut q = p;
        for z in &mut q { *z = *z * 0.5; }
        let _ = (p + q, p - q, p + s, p - s, p * s, p == q, PointN::<f64, N>::default(), p.into_iter().count(), p.squared_length(), <PointN<f64, N> as Point>::DIM, format!("{:?}", p));
        for k in 0..N { let _ = Point::axis(&p, k); }
        Ok(())
    });
}
pub fn int<const N: usize>(x: &mut Cx, a: &[i64], b: &[i64], s: i64) {
    x.case(|| format!("PointN<i64,{N}>: a={:?} b={:?} s={s:?}", a, b), || {
        let pa: PointN<i64, N> = PointN::new(core::array::from_fn(|i| a[i]));
        let pb: PointN<i64, N> = PointN::new(core::array::from_fn(|i| b[i]));
        let v = |p: PointN<i64, N>| p.into_iter().collect::<Vec<i64>>();
        let w = |f: &dyn Fn(usize) -> i64| (0..N).map(f).collect::<Vec<i64>>();
        eqv("a + b", &v(pa + pb), &w(&|i| a[i] + b[i]))?;
        eqv("a - b", &v(pa - pb), &w(&|i| a[i] - b[i]))?;
        eqv("a + s", &v(pa + s), &w(&|i| a[i] + s))?;
        eqv("a - s", &v(pa - s), &w(&|i| a[i] - s))?;
        eqv("a * s", &v(pa * s), &w(&|i| a[i] * s))?;
        eqv("default", &v(PointN::default()), &w(&|_| 0))?;
        if (pa == pb) != (a[..N] == b[..N]) { return Err("equality".into()); }
        Ok(())
    });
}
