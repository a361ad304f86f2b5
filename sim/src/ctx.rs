//! Per-run context: decisions, fault accounting, history hashing and (when replaying) event log.
use crate::tape::{hash64, Tape};
use std::collections::BTreeMap;

pub struct Ctx {
    pub tape: Tape,
    pub log_on: bool,
    pub log: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub cover: BTreeMap<&'static str, u64>,
    pub steps: u64,
    pub checks: u64,
    pub nontrivial: bool,
    pub hist: u64,
    /// exploration depth multiplier: 1 in the quick tier, larger in the thorough tier
    pub deep: bool,
}

pub type Outcome = Result<(), String>;

#[macro_export]
macro_rules! ev {
    ($c:expr, $($a:tt)*) => { if $c.log_on { let s = format!($($a)*); $c.log.push(s); } };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $cond:expr, $($a:tt)*) => {{
        $c.checks += 1;
        if !($cond) { return Err(format!($($a)*)); }
    }};
}

impl Ctx {
    pub fn new(tape: Tape, log_on: bool, deep: bool) -> Ctx {
        Ctx {
            tape, log_on, log: Vec::new(), faults: BTreeMap::new(), cover: BTreeMap::new(),
            steps: 0, checks: 0, nontrivial: false, hist: 0, deep,
        }
    }
    pub fn pick(&mut self, n: u64) -> u64 {
        self.tape.pick(n)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.tape.pick(n as u64) as usize
    }
    /// inclusive range
    /// a size between lo and hi, once in a long while one between hi and huge
    pub fn size(&mut self, lo: usize, hi: usize, huge: usize) -> usize {
        if self.chance(1, 300) {
            self.cover("unusually large sizes");
            return self.range(hi + 1, huge);
        }
        self.range(lo, hi)
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.idx(hi - lo + 1)
    }
    /// true with probability num/den; the minimiser drives it to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.tape.pick(den) >= den - num
    }
    /// uniform in [0,1)
    pub fn unit(&mut self) -> f64 {
        self.tape.pick(1 << 53) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// log-uniform in [lo, hi]
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 {
        (self.uni(lo.ln(), hi.ln())).exp()
    }
    pub fn normal(&mut self) -> f64 {
        let u = 1.0 - self.unit();
        let v = self.unit();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn vec_normal(&mut self, n: usize) -> Vec<f64> {
        (0..n).map(|_| self.normal()).collect()
    }
    pub fn unit_vec(&mut self, n: usize) -> Vec<f64> {
        loop {
            let mut v = self.vec_normal(n);
            let s = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            if s > 1e-3 {
                v.iter_mut().for_each(|x| *x /= s);
                return v;
            }
            // replayed all-zero tapes must not spin
            if s == 0.0 {
                let mut w = vec![0.0; n];
                w[0] = 1.0;
                return w;
            }
        }
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_insert(0) += 1;
        self.sym(hash_str(k));
    }
    pub fn cover(&mut self, k: &'static str) {
        *self.cover.entry(k).or_insert(0) += 1;
    }
    /// fold a symbol into the abstract history of this run
    pub fn sym(&mut self, s: u64) {
        self.hist = hash64(&[self.hist, s]);
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}
