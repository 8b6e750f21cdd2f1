//! Case runner, random numbers, value pools.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub static CURRENT: Mutex<Option<(u64, String, Instant)>> = Mutex::new(None);

pub struct Cx {
    pub pid: String,
    pub seed: u64,
    pub s: u64,
    pub only: Option<u64>,
    pub n: u64,
    pub run: u64,
    pub it: u64,
    pub seen: HashSet<u64>,
    pub samples: Vec<String>,
    pub viol: Vec<(u64, String, String)>,
    pub dict: Vec<f64>,
    pub scale: u64,
    pub deadline: Instant,
}

impl Cx {
    pub fn case(&mut self, desc: impl FnOnce() -> String, f: impl FnOnce() -> Result<(), String>) {
        let id = self.n;
        self.n += 1;
        if let Some(o) = self.only { if o != id { return; } }
        if self.viol.len() >= 5 { return; }
        let d = desc();
        *CURRENT.lock().unwrap() = Some((id, d.clone(), Instant::now()));
        let r = catch_unwind(AssertUnwindSafe(f));
        *CURRENT.lock().unwrap() = None;
        self.run += 1;
        let mut h: u64 = 0xcbf29ce484222325;
        for b in d.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        if self.seen.insert(h) && self.samples.len() < 3 && self.seen.len() % 37 == 5 { self.samples.push(d.clone()); }
        let m = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(p) => {
                let t = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("panicked: {t}")
            }
        };
        self.viol.push((id, d, m));
    }
    /// loop control: base iterations times the tier's scale
    pub fn more(&mut self, base: u64) -> bool { self.it += 1; self.it <= base * self.scale }
    pub fn stop(&self) -> bool { self.viol.len() >= 5 || Instant::now() > self.deadline }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn range(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.unit() }
    pub fn chance(&mut self, p: f64) -> bool { self.unit() < p }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { let i = self.below(v.len()); v[i].clone() }
    /// a literal of the source, or a value near it
    pub fn dictval(&mut self) -> f64 {
        if self.dict.is_empty() { return 0.5; }
        let i = self.below(self.dict.len());
        let d = self.dict[i];
        match self.below(10) { 0 => d + 1.0, 1 => d - 1.0, 2 => if d != 0.0 { 1.0 / d } else { 0.0 }, 3 => -d, 4 => d + 1e-9, 5 => d - 1e-9, 6 => d * 1.25, _ => d }
    }
    /// parameter in [0,1]
    pub fn t01(&mut self) -> f64 {
        match self.below(10) {
            0 => self.pick(&[0.0, 1.0, 0.5, 0.25, 0.75, 0.125, 0.875, 1.0 / 3.0, 2.0 / 3.0]),
            1 => self.pick(&[1e-3, 1e-6, 1e-9, 1e-12, 1e-16, 5e-324, 1.0 - 1e-3, 1.0 - 1e-6, 1.0 - 1e-9, 1.0 - 1e-12, 1.0 - 1.2e-16]),
            2 => self.below(65) as f64 / 64.0,
            3 => { let n = self.pick(&[10usize, 20, 100, 128, 1000]); self.below(n + 1) as f64 / n as f64 }
            4 => { let d = self.dictval(); if (0.0..=1.0).contains(&d) { d } else { self.unit() } }
            _ => self.unit(),
        }
    }
    /// any parameter of moderate size
    pub fn tany(&mut self) -> f64 {
        match self.below(8) {
            0 => self.range(-3.0, 4.0),
            1 => self.pick(&[-1.0, 2.0, -0.5, 1.5, -0.0, 1.0 + 1e-9, -1e-9, 3.0, 1.0 + 2.3e-16, -1e-300]),
            2 => { let d = self.dictval(); if d.abs() <= 8.0 { d } else { 0.5 } }
            _ => self.t01(),
        }
    }
    pub fn coord(&mut self, mode: usize) -> f64 {
        match mode {
            0 => self.range(-10.0, 10.0),
            1 => self.below(9) as f64 - 4.0,
            2 => self.range(-1e6, 1e6),
            3 => self.range(-1e-6, 1e-6),
            4 => self.unit(),
            5 => { let k = self.below(40) as i32 - 20; let m = self.range(-1.0, 1.0); m * (2f64).powi(k) }
            6 => { let d = self.dictval(); if d.abs() < 1e9 { d } else { 1.0 } }
            7 => 100.0 + self.unit(),
            _ => self.below(2) as f64,
        }
    }
    /// n points of dimension d, rows of coordinates, with structure mixed in
    pub fn points(&mut self, n: usize, d: usize) -> Vec<Vec<f64>> {
        let mode = self.pick(&[0usize, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8]);
        let shape = self.below(12);
        let mut v: Vec<Vec<f64>> = (0..n).map(|_| (0..d).map(|_| self.coord(mode)).collect()).collect();
        match shape {
            0 => { let p = v.first().cloned(); if let Some(p) = p { for q in v.iter_mut() { *q = p.clone(); } } }       // one point
            1 if n > 1 => { let (i, j) = (self.below(n), self.below(n)); v[i] = v[j].clone(); }                           // a repeated point
            2 if n > 1 => { let p = v[0].clone(); v[n - 1] = p; }                                                         // closed
            3 if n > 1 => {                                                                                               // collinear
                let (a, b) = (v[0].clone(), v[n - 1].clone());
                for q in v.iter_mut() { let s = self.range(-0.5, 1.5); for k in 0..d { q[k] = a[k] + (b[k] - a[k]) * s; } }
            }
            4 => { for k in 0..d { if self.chance(0.5) { let c = v.first().map(|p| p[k]).unwrap_or(0.0); for q in v.iter_mut() { q[k] = c; } } } } // constant axes
            5 => { for k in 0..d { let mut xs: Vec<f64> = v.iter().map(|p| p[k]).collect(); xs.sort_by(crate::num::cmp); if self.chance(0.5) { xs.reverse(); } for (q, x) in v.iter_mut().zip(xs) { q[k] = x; } } } // monotone
            6 => { if n > 0 { let i = self.below(n); for q in v[i].iter_mut() { *q = 0.0; } } }
            7 if n > 1 => { let i = self.below(n - 1); let p = v[i].clone(); v[i + 1] = p; }                              // adjacent points equal
            _ => {}
        }
        v
    }
    pub fn steps(&mut self) -> usize {
        if self.it % 190 == 45 { return self.pick(&[32_769usize, 65_537, 70_001]); } // more than a narrow integer type counts
        match self.below(6) {
            0 => self.pick(&[1usize, 2, 3, 4, 5, 7, 8, 10, 16]),
            1 => self.pick(&[32usize, 63, 64, 65, 100, 127, 128, 129]),
            2 => { let d = self.dictval(); if d >= 1.0 && d <= 2500.0 { d as usize } else { 50 } }
            3 => self.pick(&[200usize, 255, 256, 257, 333]),
            _ => 1 + self.below(40),
        }
    }
}

pub fn watchdog(limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        let c = CURRENT.lock().unwrap().clone();
        if let Some((id, d, t)) = c {
            if t.elapsed() > limit {
                println!("{}", jline(&[("kind", "violation"), ("case", &id.to_string()), ("input", &d), ("observed", "does not terminate")]));
                println!("{}", jline(&[("kind", "summary"), ("hang", "1")]));
                std::process::exit(1);
            }
        }
    });
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
    }
    o.push('"');
    o
}
pub fn jline(kv: &[(&str, &str)]) -> String {
    format!("{{{}}}", kv.iter().map(|(k, v)| format!("{}: {}", jstr(k), jstr(v))).collect::<Vec<_>>().join(", "))
}
