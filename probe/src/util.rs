//! Deterministic random numbers and case bookkeeping.
use std::fmt::Write;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.u();
        r.u();
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize { (self.u() % (n as u64)) as usize }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn unit(&mut self) -> f64 { (self.u() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    /// small value, exactly representable, sums and products of few are exact
    pub fn small(&mut self) -> f64 {
        let v = [0., 1., -1., 2., -2., 3., -3., 0.5, -0.5, 4., 5., -7., 1.5, 0.25, -0.25, 10.];
        *self.pick(&v)
    }
    /// value of mixed magnitude
    pub fn num(&mut self) -> f64 {
        match self.below(8) {
            0..=3 => self.small(),
            4 => (self.unit() - 0.5) * 10.,
            5 => (self.unit() - 0.5) * 1e3,
            6 => { let e = self.range(0, 12) as i32 - 6; (self.unit() - 0.5) * 10f64.powi(e) }
            _ => (self.range(0, 2000) as f64 - 1000.) / 8.,
        }
    }
}

/// One explored case: what it did, for reports, and whether it exercised anything.
pub struct Ctx {
    pub rng: Rng,
    pub size: usize,
    pub log: String,
    pub nontrivial: bool,
}

pub type R = Result<(), String>;

impl Ctx {
    pub fn new(seed: u64, size: usize) -> Ctx {
        Ctx { rng: Rng::new(seed), size, log: String::new(), nontrivial: false }
    }
    pub fn note<S: AsRef<str>>(&mut self, s: S) {
        if self.log.len() < 6000 {
            let _ = writeln!(self.log, "{}", s.as_ref());
        }
    }
    pub fn nt(&mut self) { self.nontrivial = true; }
}

#[macro_export]
macro_rules! ensure {
    ($c: expr, $($a: tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// close up to rounding, where mag bounds the magnitudes that went into the value
pub fn close(a: f64, b: f64, mag: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || a.is_finite() && b.is_finite() && (a - b).abs() <= 1e-9 * (mag.abs() + a.abs() + b.abs())
}
/// the same number (equal, or both not a number)
pub fn same(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }

pub fn panics<F: FnOnce() -> T, T>(f: F) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

/// scratch directory of this process (created on first use, removed by main)
pub fn scratch() -> std::path::PathBuf {
    let d = std::path::PathBuf::from(format!("/tmp/numopt-probe-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

pub fn clean() {
    let _ = std::fs::remove_dir_all(format!("/tmp/numopt-probe-{}", std::process::id()));
}
