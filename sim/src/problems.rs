//! Problems solved inside the simulations: generated polyhedra and the crate's bundled oracles,
//! described by plain data so that any number of identical instances can be built.
use crate::ctx::Ctx;
use crate::la::*;
use crate::spaces::*;
use crate::tape::hash64;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::oracles::lmi_old_oracle::LMIOldOracle;
use ellalgo_rs::oracles::lmi_oracle::LMIOracle;
use ellalgo_rs::oracles::lowpass_oracle::LowpassOracle;
use ellalgo_rs::oracles::maxcut_oracle::MaxcutOracle;
use ellalgo_rs::oracles::profit_oracle::{ProfitOracle, ProfitOracleQ, ProfitRbOracle};
use ellalgo_rs::oracles::svm_oracle::SvmOracle;
use ellalgo_rs::quasicvx::MyOracle;

/// lo_i <= a_i.x <= hi_i (lo may be -inf), objective c.x
#[derive(Clone, Debug)]
pub struct LpSpec {
    pub a: Vec<V>,
    pub lo: V,
    pub hi: V,
    pub c: V,
    /// which violated constraint is returned: 0 first, 1 round robin, 2 deepest, 3 shallowest,
    /// 4 seeded, 5 last
    pub policy: u8,
    /// offset returned: 0 exact, 1 zero, 2 seeded fraction
    pub depth: u8,
    pub two_sided: bool,
    pub seed: u64,
}

#[derive(Clone)]
pub struct Lp {
    pub s: LpSpec,
    pub k: u64,
    pub cursor: usize,
}

impl Lp {
    pub fn new(s: &LpSpec) -> Lp {
        Lp { s: s.clone(), k: 0, cursor: 0 }
    }
    /// index, gradient, exact violation, width of the slab
    fn violated(&self, x: &[f64], gamma: Option<f64>) -> Vec<(usize, V, f64, f64)> {
        let mut out = Vec::new();
        for i in 0..self.s.a.len() {
            let v = dot(&self.s.a[i], x);
            let w = self.s.hi[i] - self.s.lo[i];
            if v > self.s.hi[i] {
                out.push((i, self.s.a[i].clone(), v - self.s.hi[i], w));
            } else if v < self.s.lo[i] {
                out.push((i, scale(&self.s.a[i], -1.0), self.s.lo[i] - v, w));
            }
        }
        if let Some(g) = gamma {
            let v = dot(&self.s.c, x);
            if v > g {
                out.push((self.s.a.len(), self.s.c.clone(), v - g, f64::INFINITY));
            }
        }
        out
    }
    fn reply(&mut self, x: &[f64], gamma: Option<f64>) -> Option<(Arr, AnyCut)> {
        let v = self.violated(x, gamma);
        self.k += 1;
        if v.is_empty() {
            return None;
        }
        let depth = |e: &(usize, V, f64, f64)| e.2 / norm(&e.1);
        let h = hash64(&[self.s.seed, self.k]);
        let j = match self.s.policy {
            0 => 0,
            1 => {
                let j = v.iter().position(|e| e.0 > self.cursor).unwrap_or(0);
                self.cursor = v[j].0;
                j
            }
            2 => (0..v.len()).max_by(|a, b| depth(&v[*a]).total_cmp(&depth(&v[*b]))).unwrap(),
            3 => (0..v.len()).min_by(|a, b| depth(&v[*a]).total_cmp(&depth(&v[*b]))).unwrap(),
            4 => (h % v.len() as u64) as usize,
            _ => v.len() - 1,
        };
        let (_, g, f, w) = v[j].clone();
        let frac = match self.s.depth {
            0 => 1.0,
            1 => 0.0,
            _ => (h >> 20 & 0xff) as f64 / 255.0,
        };
        let b0 = f * frac;
        let cut = if self.s.two_sided {
            AnyCut::Par(b0, if w.is_finite() { Some(f + w) } else { None })
        } else {
            AnyCut::Single(b0)
        };
        Some((arr(&g), cut))
    }
    pub fn feas(&mut self, x: &Arr) -> Option<(Arr, AnyCut)> {
        self.reply(x.data(), None)
    }
    pub fn optim(&mut self, x: &Arr, gamma: &mut f64) -> ((Arr, AnyCut), bool) {
        if let Some(c) = self.reply(x.data(), Some(*gamma)) {
            return (c, false);
        }
        *gamma = dot(&self.s.c, x.data());
        let cut = if self.s.two_sided { AnyCut::Par(0.0, None) } else { AnyCut::Single(0.0) };
        ((arr(&self.s.c), cut), true)
    }
    /// largest violation of any constraint, relative to its gradient
    pub fn worst(s: &LpSpec, x: &[f64]) -> f64 {
        (0..s.a.len())
            .map(|i| {
                let v = dot(&s.a[i], x);
                (v - s.hi[i]).max(s.lo[i] - v) / norm(&s.a[i])
            })
            .fold(f64::MIN, f64::max)
    }
}

#[derive(Clone, Debug)]
pub struct LmiSpec {
    pub m: usize,
    pub f: Vec<Mat>,
    pub b: Mat,
}

#[derive(Clone, Debug)]
pub enum Spec {
    Lp(LpSpec),
    Profit { par: (f64, f64, f64), el: V, pr: V },
    ProfitRb { par: (f64, f64, f64), el: V, pr: V, vp: (f64, f64, f64, f64, f64) },
    ProfitQ { par: (f64, f64, f64), el: V, pr: V },
    Quasi,
    Lowpass { n: usize, wp: f64, ws: f64, lp: f64, up: f64, sp: f64 },
    Lmi(LmiSpec),
    LmiOld(LmiSpec),
    Maxcut { n: usize, w: V },
    Svm { rows: usize, nf: usize, data: V, lab: Vec<i32> },
}

pub enum Orc {
    Lp(Lp),
    Profit(ProfitOracle),
    ProfitRb(ProfitRbOracle),
    ProfitQ(ProfitOracleQ),
    Quasi(MyOracle),
    Lowpass(LowpassOracle),
    Lmi(LMIOracle),
    LmiOld(LMIOldOracle),
    Maxcut(MaxcutOracle),
    Svm(SvmOracle),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Drv {
    Feas,
    Optim,
    Q,
}

fn sc(c: (Arr, SingleCut)) -> (Arr, AnyCut) {
    (c.0, AnyCut::Single(c.1 .0))
}
fn pc(c: (Arr, ParallelCut)) -> (Arr, AnyCut) {
    (c.0, AnyCut::Par(c.1 .0, c.1 .1))
}

impl Spec {
    pub fn name(&self) -> &'static str {
        match self {
            Spec::Lp(_) => "polyhedron",
            Spec::Profit { .. } => "profit",
            Spec::ProfitRb { .. } => "robust profit",
            Spec::ProfitQ { .. } => "discrete profit",
            Spec::Quasi => "quasi-convex",
            Spec::Lowpass { .. } => "filter",
            Spec::Lmi(_) => "matrix inequality",
            Spec::LmiOld(_) => "matrix inequality (eager)",
            Spec::Maxcut { .. } => "maximum cut",
            Spec::Svm { .. } => "classifier",
        }
    }
    pub fn dim(&self) -> usize {
        match self {
            Spec::Lp(s) => s.c.len(),
            Spec::Lowpass { n, .. } => *n,
            Spec::Lmi(s) | Spec::LmiOld(s) => s.f.len(),
            Spec::Maxcut { n, .. } => *n,
            Spec::Svm { nf, .. } => nf + 1,
            _ => 2,
        }
    }
    pub fn build(&self) -> Orc {
        match self.clone() {
            Spec::Lp(s) => Orc::Lp(Lp::new(&s)),
            Spec::Profit { par, el, pr } => Orc::Profit(ProfitOracle::new(par, arr(&el), arr(&pr))),
            Spec::ProfitRb { par, el, pr, vp } => Orc::ProfitRb(ProfitRbOracle::new(par, arr(&el), arr(&pr), vp)),
            Spec::ProfitQ { par, el, pr } => Orc::ProfitQ(ProfitOracleQ::new(par, arr(&el), arr(&pr))),
            Spec::Quasi => Orc::Quasi(MyOracle::default()),
            Spec::Lowpass { n, wp, ws, lp, up, sp } => Orc::Lowpass(LowpassOracle::new(n, wp, ws, lp, up, sp)),
            Spec::Lmi(s) => Orc::Lmi(LMIOracle::new(s.f.iter().map(mat_arr).collect(), mat_arr(&s.b))),
            Spec::LmiOld(s) => Orc::LmiOld(LMIOldOracle::new(s.f.iter().map(mat_arr).collect(), mat_arr(&s.b))),
            Spec::Maxcut { n, w } => Orc::Maxcut(MaxcutOracle::new(Arr::from_shape_vec(n, n, w))),
            Spec::Svm { rows, nf, data, lab } => Orc::Svm(SvmOracle::new(Arr::from_shape_vec(rows, nf, data), lab)),
        }
    }
    pub fn gamma0(&self) -> f64 {
        match self {
            Spec::Lp(_) => f64::INFINITY,
            Spec::Lowpass { sp, .. } => *sp,
            Spec::Maxcut { .. } | Spec::Svm { .. } => f64::NEG_INFINITY,
            _ => 0.0,
        }
    }
    pub fn drivers(&self) -> &'static [Drv] {
        match self {
            Spec::Lp(_) | Spec::Lowpass { .. } => &[Drv::Feas, Drv::Optim],
            Spec::Lmi(_) | Spec::LmiOld(_) => &[Drv::Feas],
            Spec::ProfitQ { .. } => &[Drv::Q],
            _ => &[Drv::Optim],
        }
    }
}

impl Orc {
    pub fn feas(&mut self, x: &Arr) -> Option<(Arr, AnyCut)> {
        match self {
            Orc::Lp(o) => o.feas(x),
            Orc::Lowpass(o) => o.assess_feas(x).map(pc),
            Orc::Lmi(o) => o.assess_feas(x).map(sc),
            Orc::LmiOld(o) => o.assess_feas(x).map(sc),
            _ => unreachable!(),
        }
    }
    pub fn optim(&mut self, x: &Arr, g: &mut f64) -> ((Arr, AnyCut), bool) {
        let one = |r: ((Arr, SingleCut), bool)| (sc(r.0), r.1);
        match self {
            Orc::Lp(o) => o.optim(x, g),
            Orc::Profit(o) => one(o.assess_optim(x, g)),
            Orc::ProfitRb(o) => one(o.assess_optim(x, g)),
            Orc::Quasi(o) => one(o.assess_optim(x, g)),
            Orc::Maxcut(o) => one(o.assess_optim(x, g)),
            Orc::Svm(o) => one(o.assess_optim(x, g)),
            Orc::Lowpass(o) => {
                let r = o.assess_optim(x, g);
                (pc(r.0), r.1)
            }
            _ => unreachable!(),
        }
    }
    pub fn optim_q(&mut self, x: &Arr, g: &mut f64, retry: bool) -> ((Arr, AnyCut), bool, Arr, bool) {
        match self {
            Orc::ProfitQ(o) => {
                let r = o.assess_optim_q(x, g, retry);
                (sc(r.0), r.1, r.2, r.3)
            }
            _ => unreachable!(),
        }
    }
}

// ------------------------------------------------------------------ generation

fn sym_mat(ctx: &mut Ctx, m: usize, s: f64) -> Mat {
    let mut a = Mat::zero(m);
    for i in 0..m {
        for j in 0..=i {
            let v = s * ctx.normal();
            a.set(i, j, v);
            a.set(j, i, v);
        }
    }
    a
}

pub fn gen_lmi(ctx: &mut Ctx) -> LmiSpec {
    let n = if ctx.chance(1, 12) { ctx.range(5, 8) } else { ctx.size(2, 4, 20) };
    let m = if ctx.chance(1, 12) { ctx.range(7, 14) } else { ctx.size(1, 6, 40) };
    let s = ctx.logu(0.1, 10.0);
    let f: Vec<Mat> = (0..n).map(|_| sym_mat(ctx, m, s)).collect();
    let mut b = if ctx.chance(3, 4) { rand_spd(ctx, m, 0.2 * s, 10.0 * s) } else { sym_mat(ctx, m, s) };
    if ctx.chance(1, 2) {
        // feasible around a shifted point
        for fk in &f {
            let t = ctx.uni(-1.5, 1.5);
            for (x, y) in b.a.iter_mut().zip(&fk.a) {
                *x += t * y;
            }
        }
    }
    for i in 0..m {
        for j in 0..i {
            let v = b.at(i, j);
            b.set(j, i, v);
        }
    }
    LmiSpec { m, f, b }
}

pub fn gen_profit(ctx: &mut Ctx) -> ((f64, f64, f64), V, V) {
    if ctx.chance(1, 6) {
        return ((20.0, 40.0, 30.5), vec![0.1, 0.4], vec![10.0, 35.0]);
    }
    let mut par = (ctx.uni(5.0, 40.0), ctx.uni(10.0, 80.0), ctx.uni(1.5, 60.0));
    let el = vec![ctx.uni(0.03, 0.45), ctx.uni(0.03, 0.45)];
    let mut pr = vec![ctx.uni(1.0, 60.0), ctx.uni(1.0, 60.0)];
    if ctx.chance(1, 5) {
        // another currency
        let u = ctx.logu(1e-12, 1e12);
        par.0 *= u;
        pr = scale(&pr, u);
    }
    if ctx.chance(1, 6) {
        // quantities counted in other units
        for i in 0..2 {
            let q = ctx.logu(1.0, 1e10);
            pr[i] /= q;
            par.1 /= q.powf(el[i]);
            if i == 0 {
                par.2 *= q;
            }
        }
    }
    (par, el, pr)
}

/// Logarithms of the quantities that maximise the profit when the limit is not in the way.
pub fn profit_peak(par: &(f64, f64, f64), el: &[f64], pr: &[f64]) -> V {
    let s: f64 = (par.0 * par.1).ln() + (0..2).map(|i| el[i] * (el[i] / pr[i]).ln()).sum::<f64>();
    let lr = s / (1.0 - el[0] - el[1]);
    (0..2).map(|i| lr + (el[i] / pr[i]).ln()).collect()
}

/// A polyhedron inside the unit-ball-like region (c, P): contains the ball (z, r).
pub fn gen_lp(ctx: &mut Ctx, reg: &Region, r_lo: f64) -> (LpSpec, V, f64) {
    let n = reg.c.len();
    let l = reg.p.chol().expect("region");
    let (w, _) = reg.p.eig();
    let smallest = w.iter().cloned().fold(f64::INFINITY, f64::min).max(0.0).sqrt();
    let u = ctx.unit_vec(n);
    // mostly well inside, sometimes close to the rim, where only a sliver of the region is of interest
    let rho = if ctx.chance(1, 8) { 1.0 - ctx.logu(3e-5, 0.15) } else { ctx.uni(0.0, 0.85) };
    let z = axpy(&reg.c, rho, &l.mv(&u));
    // the ball around z must stay inside the region: |L^-1 y| <= |y|/smallest
    let rmax = 0.98 * (1.0 - rho) * smallest;
    let r = ctx.logu(r_lo.max((1e-5 / (1.0 - rho)).min(1.0)), 1.0) * rmax;
    let m = ctx.range(1, 2 * n + 4);
    let mut a = Vec::new();
    let (mut lo, mut hi) = (Vec::new(), Vec::new());
    for _ in 0..m {
        let g = gen_grad(ctx, n, &a);
        let gn = norm(&g);
        let v = dot(&g, &z);
        let slack = if ctx.chance(1, 2) { 0.0 } else { ctx.logu(1e-3, 3.0) * rmax * gn };
        hi.push(v + r * gn * (1.0 + 1e-9) + slack);
        lo.push(if ctx.chance(1, 3) {
            let s2 = if ctx.chance(1, 2) { 0.0 } else { ctx.logu(1e-3, 3.0) * rmax * gn };
            v - r * gn * (1.0 + 1e-9) - s2
        } else {
            f64::NEG_INFINITY
        });
        a.push(g);
    }
    let c = ctx.unit_vec(n);
    let spec = LpSpec {
        a, lo, hi, c,
        policy: ctx.pick(6) as u8,
        depth: ctx.pick(3) as u8,
        two_sided: ctx.chance(1, 2),
        seed: ctx.pick(1 << 40),
    };
    (spec, z, r)
}

pub fn gen_lowpass(ctx: &mut Ctx, n: usize) -> Spec {
    let wp = ctx.uni(0.05, 0.4);
    let ws = wp + ctx.uni(0.0, 0.5);
    let lp = ctx.uni(0.3, 0.98);
    let up = lp + ctx.logu(1e-2, 1.0);
    let sp = ctx.logu(1e-3, 0.9);
    Spec::Lowpass { n, wp, ws, lp, up, sp }
}

/// A problem with a suitable initial region.
pub fn gen_job(ctx: &mut Ctx, want_q: bool) -> Job {
    let t = ctx.pick(if want_q { 13 } else { 12 });
    let spec = match t {
        0 | 1 => {
            let n = ctx.size(2, 5, 24);
            let (init, c) = gen_init(ctx, n);
            let reg = Region { c: c.clone(), p: init.p(n) };
            let (mut s, _, _) = gen_lp(ctx, &reg, 1e-3);
            if ctx.chance(1, 4) && !s.hi.is_empty() {
                // an infeasible polyhedron
                s.lo[0] = s.hi[0] + norm(&s.a[0]) * reg.tau(&s.c) * 0.1;
                s.hi[0] = s.lo[0];
            }
            let which = ctx.idx(4);
            return finish(ctx, Spec::Lp(s), init, c, which);
        }
        2 => {
            let (par, el, pr) = gen_profit(ctx);
            Spec::Profit { par, el, pr }
        }
        3 => {
            let (par, el, pr) = gen_profit(ctx);
            let vp = (ctx.uni(0.0, 0.02), ctx.uni(0.0, 0.02), par.0 * ctx.uni(0.0, 0.05), ctx.uni(0.0, 1.0), pr[0] * ctx.uni(0.0, 0.3));
            Spec::ProfitRb { par, el, pr, vp }
        }
        4 => Spec::Quasi,
        5 | 6 => {
            let n = ctx.size(2, 9, 40);
            gen_lowpass(ctx, n)
        }
        7 => Spec::Lmi(gen_lmi(ctx)),
        8 => Spec::LmiOld(gen_lmi(ctx)),
        9 => {
            let n = if ctx.chance(1, 6) { ctx.range(7, 14) } else { ctx.size(2, 6, 80) };
            let neg = ctx.chance(1, 5);
            let mut w = vec![0.0; n * n];
            for i in 0..n {
                for j in 0..i {
                    let v = if ctx.chance(1, 4) { 0.0 } else { ctx.uni(0.1, 5.0) };
                    let v = if neg && ctx.chance(1, 3) { -v } else { v };
                    w[i * n + j] = v;
                    w[j * n + i] = v;
                }
            }
            Spec::Maxcut { n, w }
        }
        10 | 11 => {
            let rows = if ctx.chance(1, 6) { ctx.range(9, 40) } else { ctx.size(1, 8, 300) };
            let nf = ctx.size(1, 4, 30);
            let data: V = (0..rows * nf).map(|_| ctx.uni(-3.0, 3.0)).collect();
            let lab = (0..rows)
                .map(|i| {
                    let v = data[i * nf] + if ctx.chance(1, 5) { ctx.uni(-3.0, 3.0) } else { 0.0 };
                    if v > 0.0 { 1 } else { -1 }
                })
                .collect();
            Spec::Svm { rows, nf, data, lab }
        }
        _ => {
            let (par, el, pr) = gen_profit(ctx);
            Spec::ProfitQ { par, el, pr }
        }
    };
    let n = spec.dim();
    let s = match &spec {
        Spec::Profit { .. } | Spec::ProfitRb { .. } | Spec::ProfitQ { .. } => 100.0,
        Spec::Lowpass { .. } => 40.0,
        _ => 10.0,
    } * ctx.logu(0.3, 3.0);
    let init = match ctx.pick(3) {
        0 => Init::Scalar(s),
        1 => Init::Diag((0..n).map(|_| s * ctx.logu(0.5, 2.0)).collect()),
        _ => Init::Full(1.0, rand_spd(ctx, n, 0.5 * s, 2.0 * s)),
    };
    let off = if ctx.chance(1, 3) { 0.0 } else { 0.2 * s.sqrt() };
    let c: V = (0..n).map(|_| off * ctx.normal()).collect();
    let which = ctx.idx(4);
    finish(ctx, spec, init, c, which)
}

fn finish(ctx: &mut Ctx, spec: Spec, init: Init, c: V, which: usize) -> Job {
    let ds = spec.drivers();
    let drv = ds[ctx.idx(ds.len())];
    let max = ctx.range(1, 30);
    let tol = if ctx.chance(1, 4) { ctx.logu(1e-10, 1e-1) } else { 1e-20 };
    let verbose = ctx.chance(1, 6);
    Job { spec, init, c, which, drv, max, tol, verbose }
}

/// The same problem with one thing changed: what is keyed by part of a problem would collide.
pub fn sibling(ctx: &mut Ctx, spec: &Spec) -> Spec {
    let mut s = spec.clone();
    let f: f64 = [1.25, 0.8, 1.01, -1.0][ctx.idx(4)];
    let pf = f.abs() * if f < 0.0 { 1.5 } else { 1.0 };
    match &mut s {
        Spec::Lp(l) => {
            let i = ctx.idx(l.a.len());
            if ctx.chance(1, 2) {
                l.a[i] = scale(&l.a[i], f);
            } else {
                l.seed ^= 1;
                l.policy = (l.policy + 1) % 6;
            }
        }
        Spec::Profit { par, el, pr } | Spec::ProfitQ { par, el, pr } | Spec::ProfitRb { par, el, pr, .. } => match ctx.pick(7) {
            0 => par.0 *= pf,
            1 => par.1 *= pf,
            2 => par.2 *= pf,
            3 => el[0] *= pf.min(1.0),
            4 => el[1] *= pf.min(1.0),
            5 => pr[0] *= pf,
            _ => pr[1] *= pf,
        },
        Spec::Quasi => {}
        Spec::Lowpass { wp, ws, lp, up, sp, .. } => match ctx.pick(5) {
            0 => *wp = (*wp * pf).min(*ws),
            1 => *ws = (*ws * pf).clamp(*wp, 0.95),
            2 => *lp = (*lp * pf).min(*up * 0.99),
            3 => *up = (*up * pf).max(*lp * 1.01),
            _ => *sp = (*sp * pf).min(0.95),
        },
        Spec::Lmi(l) | Spec::LmiOld(l) => {
            let k = ctx.idx(l.f.len() + 1);
            let m = if k == 0 { &mut l.b } else { &mut l.f[k - 1] };
            let (i, j) = (ctx.idx(l.m), ctx.idx(l.m));
            let v = m.at(i, j) * f;
            m.set(i, j, v);
            m.set(j, i, v);
        }
        Spec::Maxcut { n, w } => {
            let (i, j) = (ctx.idx(*n), ctx.idx(*n));
            if i != j {
                let v = w[i * *n + j] * f + if f < 0.0 { 1.0 } else { 0.0 };
                w[i * *n + j] = v;
                w[j * *n + i] = v;
            }
        }
        Spec::Svm { data, lab, .. } => {
            if ctx.chance(1, 2) {
                let k = ctx.idx(data.len());
                data[k] *= f;
            } else {
                let k = ctx.idx(lab.len());
                lab[k] = -lab[k];
            }
        }
    }
    s
}

// ------------------------------------------------------------------ jobs

#[derive(Clone)]
pub struct Job {
    pub spec: Spec,
    pub init: Init,
    pub c: V,
    pub which: usize,
    pub drv: Drv,
    pub max: usize,
    pub tol: f64,
    pub verbose: bool,
}

pub type Query = (Vec<u64>, u64, bool);

/// An oracle that records every query and lets the simulator act before each one.
pub struct Traced<'h> {
    pub o: Orc,
    pub log: Vec<Query>,
    /// improvement flag per query, filled in after the inner oracle answered
    pub better: Vec<bool>,
    pub hook: Box<dyn FnMut(usize) + Send + 'h>,
}

impl<'h> Traced<'h> {
    pub fn new(o: Orc, hook: Box<dyn FnMut(usize) + Send + 'h>) -> Self {
        Traced { o, log: Vec::new(), better: Vec::new(), hook }
    }
    fn note(&mut self, x: &Arr, g: f64, retry: bool) {
        let k = self.log.len();
        if k > 200_000 {
            panic!("a solver session makes far more queries than its budget");
        }
        (self.hook)(k);
        self.log.push((bits(x.data()), g.to_bits(), retry));
    }
}
impl OracleFeas<Arr> for Traced<'_> {
    type CutChoice = AnyCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, AnyCut)> {
        self.note(x, 0.0, false);
        let r = self.o.feas(x);
        self.better.push(r.is_none());
        r
    }
}
impl OracleOptim<Arr> for Traced<'_> {
    type CutChoice = AnyCut;
    fn assess_optim(&mut self, x: &Arr, g: &mut f64) -> ((Arr, AnyCut), bool) {
        self.note(x, *g, false);
        let r = self.o.optim(x, g);
        self.better.push(r.1);
        r
    }
}
impl OracleOptimQ<Arr> for Traced<'_> {
    type CutChoice = AnyCut;
    fn assess_optim_q(&mut self, x: &Arr, g: &mut f64, retry: bool) -> ((Arr, AnyCut), bool, Arr, bool) {
        self.note(x, *g, retry);
        let r = self.o.optim_q(x, g, retry);
        self.better.push(r.1);
        r
    }
}

impl Job {
    pub fn space(&self) -> Sp {
        self.init.make(self.which, &self.c)
    }
    pub fn options(&self, max: usize) -> Options {
        if self.verbose {
            return Options { max_iters: max, tolerance: self.tol, verbose: true };
        }
        Options::new(max, self.tol)
    }
    pub fn describe(&self) -> String {
        format!(
            "{} problem of dimension {} on a {} region, {:?} driver, budget {}, tolerance {:e}",
            self.spec.name(), self.c.len(), self.space().name(), self.drv, self.max, self.tol
        )
    }
    pub fn drive(&self, o: &mut Traced, sp: &mut Sp, g: &mut f64, max: usize) -> (Option<Arr>, usize) {
        let opt = self.options(max);
        match self.drv {
            Drv::Feas => cutting_plane_feas(o, sp, &opt),
            Drv::Optim => cutting_plane_optim(o, sp, g, &opt),
            Drv::Q => cutting_plane_optim_q(o, sp, g, &opt),
        }
    }
}
