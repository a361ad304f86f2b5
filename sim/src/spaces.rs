//! Search spaces used by the simulations: the real Ell / EllStable behind one enum, a user-built
//! space on top of the crate's cut calculator, a reference model, probing, and generators.
use crate::ctx::Ctx;
use crate::la::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::{
    CutStatus, ParallelCut, SearchSpace, SingleCut, UpdateByCutChoice,
};
use ellalgo_rs::ell::Ell;
use ellalgo_rs::ell_calc::{EllCalc, EllCalcCore};
use ellalgo_rs::ell_stable::EllStable;

pub fn arr(v: &[f64]) -> Arr {
    Arr::from(v.to_vec())
}
pub fn vec_of(a: &Arr) -> V {
    a.data().to_vec()
}
pub fn mat_arr(m: &Mat) -> Arr {
    Arr::from_shape_vec(m.n, m.n, m.a.clone())
}
pub fn bits(a: &[f64]) -> Vec<u64> {
    // all NaNs compare alike: their payload is not specified
    a.iter().map(|x| if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() }).collect()
}
pub fn st(s: &CutStatus) -> u8 {
    match s {
        CutStatus::Success => 0,
        CutStatus::NoSoln => 1,
        CutStatus::NoEffect => 2,
        CutStatus::Unknown => 3,
    }
}
pub fn st_name(s: u8) -> &'static str {
    ["success", "no-solution", "no-effect", "unknown"][s as usize]
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Bias,
    Central,
    Q,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AnyCut {
    Single(f64),
    Par(f64, Option<f64>),
}

/// A user-written space: own full-matrix algebra, coefficients from the crate's calculator.
#[derive(Clone, Debug)]
pub struct UserEll {
    pub p: Mat,
    pub c: V,
    pub calc: EllCalc,
    pub tsq: f64,
    /// coefficients from the calculator's individual published formulas, not its entry points
    pub formulas: bool,
}

impl UserEll {
    fn apply(&mut self, kind: Kind, g: &[f64], cut: &AnyCut) -> CutStatus {
        let pg = self.p.mv(g);
        self.tsq = dot(g, &pg);
        let t = self.tsq;
        if !(t > 0.0) {
            return CutStatus::NoEffect;
        }
        let (s, (rho, sigma, delta)) = match (kind, cut) {
            (Kind::Bias, AnyCut::Single(b)) => self.calc.calc_bias_cut(*b, t),
            (Kind::Central, AnyCut::Single(_)) => self.calc.calc_central_cut(t),
            (Kind::Q, AnyCut::Single(b)) => self.calc.calc_bias_cut_q(*b, t),
            (Kind::Bias, AnyCut::Par(a, b)) => {
                self.calc.calc_single_or_parallel_bias_cut(&ParallelCut(*a, *b), t)
            }
            (Kind::Central, AnyCut::Par(a, b)) => {
                self.calc.calc_single_or_parallel_central_cut(&ParallelCut(*a, *b), t)
            }
            (Kind::Q, AnyCut::Par(a, b)) => {
                self.calc.calc_single_or_parallel_q(&ParallelCut(*a, *b), t)
            }
        };
        if s != CutStatus::Success {
            return s;
        }
        let n = self.c.len();
        let (rho, sigma, delta) = if self.formulas {
            let core = EllCalcCore::new(n as f64);
            let tau = t.sqrt();
            match (kind, cut) {
                (Kind::Bias | Kind::Q, AnyCut::Par(a, Some(b))) if *b < tau => {
                    core.calc_parallel_bias_cut_fast_old(*a, *b, t, a * b, t + n as f64 * a * b)
                }
                (Kind::Central, AnyCut::Par(_, Some(b))) if *b < tau => core.calc_parallel_bias_cut(0.0, *b, t),
                (Kind::Central, _) => core.calc_bias_cut(0.0, tau),
                (_, AnyCut::Single(b) | AnyCut::Par(b, _)) => core.calc_bias_cut(*b, tau),
            }
        } else {
            (rho, sigma, delta)
        };
        for i in 0..n {
            self.c[i] -= rho * pg[i] / t;
        }
        for i in 0..n {
            for j in 0..=i {
                // kept symmetric: a drifting antisymmetric part would grow without bound
                let v = (self.p.at(i, j) - sigma * (pg[i] * pg[j]) / t) * delta;
                self.p.set(i, j, v);
                self.p.set(j, i, v);
            }
        }
        s
    }
}

#[derive(Clone, Debug)]
pub enum Imp {
    E(Ell),
    S(EllStable),
    U(UserEll),
}

/// A real search region plus the number of update calls it has received.
#[derive(Clone, Debug)]
pub struct Sp {
    pub imp: Imp,
    pub calls: u64,
    /// when enabled, every update call received: kind, gradient and offset bits, status
    pub rec: Option<Vec<CutRec>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct CutRec {
    pub kind: Kind,
    pub g: Vec<u64>,
    pub off: (u64, u64, u8),
    pub status: u8,
}

pub fn cut_bits(c: &AnyCut) -> (u64, u64, u8) {
    match c {
        AnyCut::Single(b) => (b.to_bits(), 0, 0),
        AnyCut::Par(a, None) => (a.to_bits(), 0, 1),
        AnyCut::Par(a, Some(b)) => (a.to_bits(), b.to_bits(), 2),
    }
}

impl Sp {
    pub fn name(&self) -> &'static str {
        match &self.imp {
            Imp::E(e) => {
                if e.no_defer_trick {
                    "plain/immediate"
                } else {
                    "plain"
                }
            }
            Imp::S(_) => "stable",
            Imp::U(u) => {
                if u.formulas {
                    "user/formulas"
                } else if u.calc.use_parallel_cut {
                    "user"
                } else {
                    "user/single-only"
                }
            }
        }
    }
    pub fn apply(&mut self, kind: Kind, g: &[f64], cut: &AnyCut) -> u8 {
        self.calls += 1;
        let s = match (&mut self.imp, cut) {
            (Imp::E(e), AnyCut::Single(b)) => dispatch(e, kind, &(arr(g), SingleCut(*b))),
            (Imp::E(e), AnyCut::Par(a, b)) => dispatch(e, kind, &(arr(g), ParallelCut(*a, *b))),
            (Imp::S(e), AnyCut::Single(b)) => dispatch(e, kind, &(arr(g), SingleCut(*b))),
            (Imp::S(e), AnyCut::Par(a, b)) => dispatch(e, kind, &(arr(g), ParallelCut(*a, *b))),
            (Imp::U(u), c) => u.apply(kind, g, c),
        };
        let s = st(&s);
        if let Some(r) = &mut self.rec {
            r.push(CutRec { kind, g: bits(g), off: cut_bits(cut), status: s });
        }
        s
    }
    pub fn center(&self) -> V {
        match &self.imp {
            Imp::E(e) => vec_of(&e.xc()),
            Imp::S(e) => vec_of(&e.xc()),
            Imp::U(u) => u.c.clone(),
        }
    }
    pub fn measure(&self) -> f64 {
        match &self.imp {
            Imp::E(e) => e.tsq(),
            Imp::S(e) => e.tsq(),
            Imp::U(u) => u.tsq,
        }
    }
    pub fn recenter(&mut self, x: &[f64]) {
        match &mut self.imp {
            Imp::E(e) => e.set_xc(arr(x)),
            Imp::S(e) => e.set_xc(arr(x)),
            Imp::U(u) => u.c = x.to_vec(),
        }
    }
    /// squared half-width along g, observed through the public update/measure interface on a clone
    pub fn half_sq(&self, g: &[f64]) -> f64 {
        let mut c = self.clone();
        c.apply(Kind::Central, g, &AnyCut::Single(0.0));
        c.measure()
    }
    /// The matrix P of the region {x: (x-c)^T P^-1 (x-c) <= 1}, by polarisation of half-widths.
    pub fn shape(&self) -> Mat {
        let n = self.center().len();
        let mut s = vec![1.0; n];
        let mut d = vec![0.0; n];
        for i in 0..n {
            let mut e = vec![0.0; n];
            e[i] = 1.0;
            d[i] = self.half_sq(&e);
            s[i] = if d[i] > 0.0 && d[i].is_finite() { 1.0 / d[i].sqrt() } else { 1.0 };
        }
        let mut p = Mat::zero(n);
        for i in 0..n {
            p.set(i, i, d[i]);
            for j in 0..i {
                let mut e = vec![0.0; n];
                e[i] = s[i];
                e[j] = s[j];
                let plus = self.half_sq(&e);
                e[j] = -s[j];
                let minus = self.half_sq(&e);
                let v = (plus - minus) / 4.0 / s[i] / s[j];
                p.set(i, j, v);
                p.set(j, i, v);
            }
        }
        p
    }
    pub fn region(&self) -> Region {
        Region { c: self.center(), p: self.shape() }
    }
    /// bit-exact fingerprint of the observable region: centre and half-widths along given directions
    pub fn fingerprint(&self, dirs: &[V]) -> Vec<u64> {
        let mut f = bits(&self.center());
        for d in dirs {
            let mut c = self.clone();
            let s = c.apply(Kind::Central, d, &AnyCut::Single(0.0));
            f.push(s as u64);
            f.push(c.measure().to_bits());
            f.extend(bits(&c.center()));
        }
        f
    }
}

fn dispatch<S, T>(s: &mut S, kind: Kind, cut: &(Arr, T)) -> CutStatus
where
    S: SearchSpace<ArrayType = Arr>,
    T: UpdateByCutChoice<S, ArrayType = Arr>,
{
    match kind {
        Kind::Bias => s.update_bias_cut(cut),
        Kind::Central => s.update_central_cut(cut),
        Kind::Q => s.update_q(cut),
    }
}

fn to_status(s: u8) -> CutStatus {
    match s {
        0 => CutStatus::Success,
        1 => CutStatus::NoSoln,
        2 => CutStatus::NoEffect,
        _ => CutStatus::Unknown,
    }
}

macro_rules! impl_cut {
    ($t:ty, $f:expr) => {
        impl UpdateByCutChoice<Sp> for $t {
            type ArrayType = Arr;
            fn update_bias_cut_by(&self, sp: &mut Sp, g: &Arr) -> CutStatus {
                let f: fn(&$t) -> AnyCut = $f;
                to_status(sp.apply(Kind::Bias, g.data(), &f(self)))
            }
            fn update_central_cut_by(&self, sp: &mut Sp, g: &Arr) -> CutStatus {
                let f: fn(&$t) -> AnyCut = $f;
                to_status(sp.apply(Kind::Central, g.data(), &f(self)))
            }
            fn update_q_by(&self, sp: &mut Sp, g: &Arr) -> CutStatus {
                let f: fn(&$t) -> AnyCut = $f;
                to_status(sp.apply(Kind::Q, g.data(), &f(self)))
            }
        }
    };
}
impl_cut!(SingleCut, |c| AnyCut::Single(c.0));
impl_cut!(ParallelCut, |c| AnyCut::Par(c.0, c.1));
impl_cut!(AnyCut, |c| *c);

impl SearchSpace for Sp {
    type ArrayType = Arr;
    fn xc(&self) -> Arr {
        arr(&self.center())
    }
    fn tsq(&self) -> f64 {
        self.measure()
    }
    fn update_bias_cut<T>(&mut self, cut: &(Arr, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Arr>,
    {
        cut.1.update_bias_cut_by(self, &cut.0)
    }
    fn update_central_cut<T>(&mut self, cut: &(Arr, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Arr>,
    {
        cut.1.update_central_cut_by(self, &cut.0)
    }
    fn update_q<T>(&mut self, cut: &(Arr, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Arr>,
    {
        cut.1.update_q_by(self, &cut.0)
    }
    fn set_xc(&mut self, x: Arr) {
        self.recenter(x.data())
    }
}

#[derive(Clone, Debug)]
pub struct Region {
    pub c: V,
    pub p: Mat,
}

/// How an initial region is specified to a constructor.
#[derive(Clone, Debug)]
pub enum Init {
    Scalar(f64),
    Diag(V),
    Full(f64, Mat),
    Cov(Mat),
}

impl Init {
    pub fn p(&self, n: usize) -> Mat {
        match self {
            Init::Scalar(v) => Mat::eye(n).scaled(*v),
            Init::Diag(d) => Mat::diag(d),
            Init::Full(k, m) => m.scaled(*k),
            Init::Cov(m) => m.clone(),
        }
    }
    pub fn plain(&self, c: &[f64]) -> Sp {
        let e = match self {
            Init::Scalar(v) => Ell::new_with_scalar(*v, arr(c)),
            Init::Diag(d) => Ell::new(arr(d), arr(c)),
            Init::Full(k, m) => Ell::new_with_matrix(*k, mat_arr(m), arr(c)),
            Init::Cov(m) => Ell::from_covariance(mat_arr(m), arr(c)),
        };
        Sp { imp: Imp::E(e), calls: 0, rec: None }
    }
    pub fn immediate(&self, c: &[f64]) -> Sp {
        let mut s = self.plain(c);
        if let Imp::E(e) = &mut s.imp {
            e.no_defer_trick = true;
        }
        s
    }
    pub fn stable(&self, c: &[f64]) -> Sp {
        let e = match self {
            Init::Scalar(v) => EllStable::new_with_scalar(*v, arr(c)),
            Init::Diag(d) => EllStable::new(arr(d), arr(c)),
            Init::Full(k, m) => EllStable::new_with_matrix(*k, mat_arr(m), arr(c)),
            Init::Cov(m) => EllStable::new_with_matrix(1.0, mat_arr(m), arr(c)),
        };
        Sp { imp: Imp::S(e), calls: 0, rec: None }
    }
    pub fn user(&self, c: &[f64], par: bool) -> Sp {
        let mut calc = EllCalc::new(c.len());
        calc.use_parallel_cut = par;
        Sp { imp: Imp::U(UserEll { p: self.p(c.len()), c: c.to_vec(), calc, tsq: 0.0, formulas: false }), calls: 0, rec: None }
    }
    /// which: 0 plain, 1 stable, 2 plain/immediate, 3 user
    pub fn make(&self, which: usize, c: &[f64]) -> Sp {
        match which {
            0 => self.plain(c),
            1 => self.stable(c),
            2 => self.immediate(c),
            3 => self.user(c, true),
            5 => {
                let mut s = self.user(c, true);
                if let Imp::U(u) = &mut s.imp {
                    u.formulas = true;
                }
                s
            }
            _ => self.user(c, false),
        }
    }
}

pub fn rand_spd(ctx: &mut Ctx, n: usize, lo: f64, hi: f64) -> Mat {
    let seeds: Vec<V> = (0..n).map(|_| ctx.vec_normal(n)).collect();
    let a = ctx.unit_vec(n);
    let q = basis_from(&a, &seeds);
    let mut m = Mat::zero(n);
    for v in &q {
        let e = ctx.logu(lo, hi);
        for i in 0..n {
            for j in 0..n {
                m.a[i * n + j] += e * v[i] * v[j];
            }
        }
    }
    for i in 0..n {
        for j in 0..i {
            let v = 0.5 * (m.at(i, j) + m.at(j, i));
            m.set(i, j, v);
            m.set(j, i, v);
        }
    }
    m
}

pub fn gen_dim(ctx: &mut Ctx) -> usize {
    if ctx.chance(1, 1000) {
        ctx.cover("dimensions above 24");
        return ctx.range(25, 70);
    }
    match ctx.pick(20) {
        0..=3 => 2,
        4..=6 => 3,
        7..=9 => 4,
        10..=15 => ctx.range(5, 9),
        16..=18 => ctx.range(10, 14),
        _ => ctx.range(15, 24),
    }
}

pub fn gen_init(ctx: &mut Ctx, n: usize) -> (Init, V) {
    let sc = match ctx.pick(7) {
        6 => ctx.logu(1e-24, 1e24),
        0 => 1.0,
        1 => ctx.logu(1e-8, 1e-3),
        2 => ctx.logu(1e3, 1e8),
        _ => ctx.logu(1e-3, 1e3),
    };
    let init = match ctx.pick(6) {
        0 => Init::Scalar(sc),
        1 | 2 => Init::Diag((0..n).map(|_| sc * ctx.logu(0.03, 30.0)).collect()),
        3 => Init::Cov(rand_spd(ctx, n, 0.05 * sc, 20.0 * sc)),
        _ => {
            let k = ctx.logu(1e-2, 1e2);
            Init::Full(k, rand_spd(ctx, n, 0.05 * sc, 20.0 * sc))
        }
    };
    let r = sc.sqrt();
    let f = match ctx.pick(5) {
        0 => 0.0,
        1 => 30.0,
        _ => 1.0,
    };
    let c = (0..n).map(|_| f * r * ctx.normal()).collect();
    (init, c)
}

/// A cut request in offsets normalised by the half-width tau along its gradient.
#[derive(Clone, Debug)]
pub struct CutReq {
    pub kind: Kind,
    pub g: V,
    pub single: bool,
    pub b0: f64,
    pub b1: Option<f64>,
}

impl CutReq {
    pub fn cut(&self, tau: f64) -> AnyCut {
        if self.single {
            AnyCut::Single(self.b0 * tau)
        } else {
            AnyCut::Par(self.b0 * tau, self.b1.map(|b| b * tau))
        }
    }
    /// A region told to ignore far sides cannot make use of a shallow leading side.
    pub fn fit(mut self, sp: &Sp) -> CutReq {
        let least = -0.95 / self.g.len() as f64;
        if self.kind == Kind::Bias && !self.single && self.b0 < least && sp.name() == "user/single-only" {
            self.b0 = least;
            self.b1 = self.b1.map(|b| b.max(least + 0.01));
        }
        self
    }
    pub fn far(&self) -> Option<f64> {
        if self.single { None } else { self.b1 }
    }
    /// The slab of a = g.(x-c)/tau values that satisfy the cut: [lo, hi].
    pub fn slab(&self) -> (f64, f64) {
        let near = if self.kind == Kind::Central { 0.0 } else { self.b0 };
        (self.far().map_or(f64::NEG_INFINITY, |b| -b), -near)
    }
}

pub fn gen_grad(ctx: &mut Ctx, n: usize, prev: &[V]) -> V {
    let mut g = match ctx.pick(8) {
        0 => {
            let mut e = vec![0.0; n];
            let i = ctx.idx(n);
            e[i] = if ctx.chance(1, 2) { -1.0 } else { 1.0 };
            e
        }
        1 => {
            // sparse
            let mut e = vec![0.0; n];
            for _ in 0..2 {
                let i = ctx.idx(n);
                e[i] = ctx.uni(0.2, 1.0);
            }
            e
        }
        2 if !prev.is_empty() => {
            // (anti)parallel to an earlier cut
            let k = ctx.idx(prev.len());
            let s = if ctx.chance(1, 2) { -1.0 } else { 1.0 };
            scale(&prev[k], s)
        }
        _ => ctx.unit_vec(n),
    };
    if norm(&g) == 0.0 {
        g[0] = 1.0;
    }
    let s = match ctx.pick(7) {
        0 | 1 => 1.0,
        2 => ctx.logu(1e-6, 1e6),
        6 => ctx.logu(1e-12, 1e12),
        _ => ctx.logu(0.1, 10.0),
    };
    scale(&g, s)
}

const GAP: f64 = 1e-5;

fn depth(ctx: &mut Ctx) -> f64 {
    match ctx.pick(10) {
        0 => 0.0,
        1 => ctx.logu(1e-9, 1e-3),
        // a sliver left over at the pole
        2 if ctx.chance(1, 4) => 1.0 - ctx.logu(1e-7, 3e-4),
        2 => 1.0 - ctx.logu(3e-4, 1e-1),
        3 => ctx.uni(0.5, 0.99),
        _ => ctx.uni(0.0, 0.5),
    }
}

fn width(ctx: &mut Ctx) -> f64 {
    if ctx.chance(1, 25) {
        return ctx.logu(3e-5, 3e-3);
    }
    match ctx.pick(6) {
        0 => ctx.logu(3e-3, 1e-1),
        1 => ctx.uni(1.0, 3.0),
        2 => ctx.logu(3.0, 1e6),
        _ => ctx.uni(0.05, 1.2),
    }
}

/// Generate a cut in the supported domain that the region can accept or (for the discrete kind)
/// may legitimately ignore. Decision thresholds are avoided by a relative gap of 1e-5.
pub fn gen_cut(ctx: &mut Ctx, n: usize, prev: &[V]) -> CutReq {
    let g = gen_grad(ctx, n, prev);
    let nf = n as f64;
    let kind = match ctx.pick(7) {
        0..=2 => Kind::Bias,
        3 | 4 => Kind::Central,
        _ => Kind::Q,
    };
    let single = ctx.pick(5) < 2;
    match kind {
        Kind::Bias if ctx.chance(1, 6) => {
            // leading plane behind the centre, but not so shallow that no smaller ellipsoid exists
            let b0 = -ctx.uni(0.0, 0.95) / nf;
            if single || ctx.chance(1, 4) {
                let b1 = if ctx.chance(1, 2) { None } else { Some(ctx.uni(1.0 + GAP, 3.0)) };
                return CutReq { kind, g, single, b0, b1 };
            }
            match ctx.pick(3) {
                // both planes equally far from the centre
                0 => {
                    let b = ctx.uni(0.02, 0.97) / nf.sqrt();
                    CutReq { kind, g, single, b0: -b, b1: Some(b) }
                }
                1 => {
                    let b0 = -ctx.uni(0.02, 0.98);
                    // up to where the slab stops being worth a cut
                    let top = (0.97 / (nf * -b0)).min(1.0 - GAP);
                    CutReq { kind, g, single, b0, b1: Some(b0 + 0.01 + (top - b0 - 0.01).max(0.0) * ctx.unit()) }
                }
                _ => CutReq { kind, g, single, b0, b1: Some(ctx.uni(0.05, 1.0 - GAP)) },
            }
        }
        Kind::Bias | Kind::Central => {
            let b0 = if kind == Kind::Central && ctx.pick(3) == 0 { 0.0 } else { depth(ctx) };
            let b1 = match ctx.pick(6) {
                0 => None,
                1 => Some(f64::INFINITY),
                _ => Some(b0 + width(ctx)),
            };
            CutReq { kind, g, single, b0, b1 }
        }
        Kind::Q => {
            let mut b0 = match ctx.pick(6) {
                0 => depth(ctx),
                1 => -1.0 / nf * ctx.uni(0.0, 2.0),
                2 => ctx.uni(-1.0, 0.0),
                3 if !single => -ctx.uni(1.0, 3.0),
                _ => ctx.uni(-0.5, 0.9),
            };
            if (1.0 + nf * b0).abs() < GAP * nf {
                b0 += 3.0 * GAP;
            }
            let mut b1 = match ctx.pick(6) {
                0 => None,
                1 if b0 < -1e-3 && ctx.chance(1, 2) => Some(-b0),
                _ => Some(b0 + width(ctx)),
            };
            if let Some(v) = b1 {
                let mut v = v;
                for _ in 0..50 {
                    let bad_eta = (1.0 + nf * b0 * v).abs() < GAP * nf;
                    let bad_one = (v.abs() - 1.0).abs() < GAP;
                    // a slab that only grazes the far pole is numerically degenerate
                    let graze = v < -0.999 && v > -1.0 - GAP;
                    if !(bad_eta || bad_one || graze) {
                        break;
                    }
                    v += 7.3e-4;
                }
                b1 = Some(v);
            }
            CutReq { kind, g, single, b0, b1 }
        }
    }
}

/// A cut for very long histories: moderate, so that rounding does not pile up.
/// `still`: only cuts under which relative errors do not grow at all.
pub fn gen_mild(ctx: &mut Ctx, n: usize, prev: &[V], still: bool) -> CutReq {
    let recent = &prev[prev.len().saturating_sub(4)..];
    let g = gen_grad(ctx, n, recent);
    let nf = n as f64;
    let form = ctx.pick(20);
    if still {
        let (single, b1) = (ctx.chance(1, 2), if ctx.chance(1, 2) { None } else { Some(ctx.uni(1.01, 9.0)) });
        return match form {
            0..=9 => CutReq { kind: Kind::Central, g, single, b0: 0.0, b1 },
            10..=13 => CutReq { kind: Kind::Bias, g, single, b0: 0.0, b1 },
            14..=17 => CutReq { kind: Kind::Q, g, single, b0: -ctx.uni(0.0, 0.95) / nf, b1 },
            _ => CutReq { kind: Kind::Q, g, single: true, b0: -ctx.uni(1.1, 4.0) / nf, b1: None },
        };
    }
    match form {
        0 => {
            let b0 = ctx.uni(0.0, 0.25);
            CutReq { kind: Kind::Bias, g, single: false, b0, b1: Some(b0 + ctx.uni(0.75, 0.99)) }
        }
        1 => CutReq { kind: Kind::Central, g, single: false, b0: 0.0, b1: Some(ctx.uni(0.75, 3.0)) },
        2..=6 => CutReq { kind: Kind::Central, g, single: ctx.chance(1, 2), b0: ctx.uni(0.0, 0.3), b1: None },
        7..=10 => CutReq { kind: Kind::Bias, g, single: ctx.chance(1, 2), b0: ctx.uni(0.0, 0.04), b1: None },
        11..=14 => CutReq { kind: Kind::Q, g, single: true, b0: ctx.uni(-0.95 / nf, 0.03), b1: None },
        15 => CutReq { kind: Kind::Q, g, single: true, b0: -ctx.uni(1.1 / nf, 2.0), b1: None },
        _ => {
            let b0 = -ctx.uni(0.1, 0.9) / nf;
            CutReq { kind: Kind::Q, g, single: false, b0, b1: Some((b0 + 1.02).min(0.99)) }
        }
    }
}

/// A cut no point of the region satisfies.
pub fn gen_infeasible(ctx: &mut Ctx, n: usize, prev: &[V]) -> CutReq {
    let g = gen_grad(ctx, n, prev);
    let over = match ctx.pick(3) {
        0 => 1.0 + ctx.logu(1e-5, 1e-1),
        1 => ctx.uni(1.1, 5.0),
        _ => ctx.logu(5.0, 1e6),
    };
    let w = width(ctx);
    match ctx.pick(8) {
        0 => CutReq { kind: Kind::Bias, g, single: true, b0: over, b1: None },
        1 => CutReq { kind: Kind::Bias, g, single: false, b0: over, b1: None },
        2 => CutReq { kind: Kind::Bias, g, single: false, b0: over, b1: Some(over + w) },
        3 => {
            let b0 = depth(ctx) + 1e-3;
            CutReq { kind: Kind::Bias, g, single: false, b0, b1: Some(b0 - ctx.uni(1e-4, 1.0).min(b0)) }
        }
        4 => CutReq { kind: Kind::Central, g, single: false, b0: 0.0, b1: Some(-ctx.logu(1e-6, 1e3)) },
        5 => CutReq { kind: Kind::Q, g, single: true, b0: over, b1: None },
        6 => {
            let b0 = ctx.uni(-0.9, 0.9);
            CutReq { kind: Kind::Q, g, single: false, b0, b1: Some(b0 - ctx.logu(1e-4, 1.0)) }
        }
        _ => {
            if ctx.chance(1, 2) {
                CutReq { kind: Kind::Q, g, single: false, b0: over, b1: Some(over + w) }
            } else {
                // both planes beyond the far pole
                CutReq { kind: Kind::Q, g, single: false, b0: -over - w, b1: Some(-over) }
            }
        }
    }
}

/// Minimum-volume ellipsoid containing {u: |u|<=1, lo<=a.u<=hi} in the one-parameter S-procedure
/// family: returns (lambda, centre offset along a, R) with shape R*((I-aa')+aa'/(1+lambda)).
pub fn slice_opt(n: usize, lo: f64, hi: f64) -> (f64, f64, f64) {
    let nf = n as f64;
    let (p, s, w) = (lo * hi, lo + hi, hi - lo);
    // algebraically 1 - l*p + l^2*s^2/(4(1+l)), arranged to avoid cancellation for thin slices
    let r = |l: f64| (1.0 - p * (l / (1.0 + l))) + l * l / (1.0 + l) * (w * w / 4.0);
    let rd = |l: f64| {
        let q = (1.0 + l) * (1.0 + l);
        -p / q + w * w / 4.0 * ((l * l + 2.0 * l) / q)
    };
    let fd = |l: f64| nf * rd(l) / r(l) - 1.0 / (1.0 + l);
    if fd(0.0) >= 0.0 {
        return (0.0, 0.0, 1.0);
    }
    let (mut a, mut b) = (0.0f64, 1.0f64);
    while fd(b) < 0.0 && b < 1e18 {
        a = b;
        b *= 4.0;
    }
    for _ in 0..200 {
        let m = if a > 0.0 && b / a > 4.0 { (a * b).sqrt() } else { 0.5 * (a + b) };
        if m <= a || m >= b {
            break;
        }
        if fd(m) < 0.0 {
            a = m;
        } else {
            b = m;
        }
    }
    let l = 0.5 * (a + b);
    (l, l * s / (2.0 * (1.0 + l)), r(l))
}

/// What the textbook method does with a normalised cut: status and the slab actually used.
pub fn ref_status(n: usize, q: &CutReq) -> (u8, f64, f64) {
    let nf = n as f64;
    let far = q.far();
    match q.kind {
        Kind::Bias | Kind::Central => {
            let b0 = if q.kind == Kind::Central { 0.0 } else { q.b0 };
            if let Some(b1) = far {
                if b1 < b0 {
                    return (1, 0.0, 0.0);
                }
            }
            if b0 > 1.0 {
                return (1, 0.0, 0.0);
            }
            (0, -far.unwrap_or(1.0).min(1.0), -b0)
        }
        Kind::Q => {
            let b0 = q.b0;
            if let Some(b1) = far {
                if b1 < b0 || b1 < -1.0 {
                    return (1, 0.0, 0.0);
                }
            }
            if b0 > 1.0 {
                return (1, 0.0, 0.0);
            }
            let b1 = far.unwrap_or(1.0).min(1.0);
            if 1.0 + nf * b0 * b1 <= 0.0 {
                return (2, 0.0, 0.0);
            }
            (0, -b1, -b0)
        }
    }
}

impl Region {
    /// textbook update; the caller guarantees status 0
    pub fn cut(&mut self, g: &[f64], lo: f64, hi: f64) {
        let n = self.c.len();
        let pg = self.p.mv(g);
        let tau = dot(g, &pg).sqrt();
        let (l, off, r) = slice_opt(n, lo, hi);
        let v = scale(&pg, 1.0 / tau); // = L a
        self.c = axpy(&self.c, off, &v);
        let k = l / (1.0 + l);
        for i in 0..n {
            for j in 0..=i {
                let x = r * (self.p.at(i, j) - k * v[i] * v[j]);
                self.p.set(i, j, x);
                self.p.set(j, i, x);
            }
        }
    }
    pub fn tau(&self, g: &[f64]) -> f64 {
        self.p.quad(g).sqrt()
    }
    pub fn ln_det(&self) -> f64 {
        match self.p.chol() {
            Some(l) => (0..l.n).map(|i| 2.0 * l.at(i, i).ln()).sum(),
            None => f64::NAN,
        }
    }
    /// conditioning of the shape after scaling to unit diagonal is not used: plain condition number
    pub fn cond(&self) -> f64 {
        self.p.cond_sym()
    }
    pub fn finite(&self) -> bool {
        self.c.iter().all(|x| x.is_finite()) && self.p.a.iter().all(|x| x.is_finite())
    }
}
