//! C05-C07: the three drivers against reference loops, with scripted stub spaces (arbitrary
//! statuses and measures) and with real regions, under injected panics.
use super::Prop;
use crate::ctx::{Ctx, Outcome};
use crate::run::Injected;
use crate::spaces::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::rc::Rc;

// ------------------------------------------------------------------ reference loops

pub fn ref_feas<T, O, S>(o: &mut O, s: &mut S, max: usize, tol: f64) -> (Option<S::ArrayType>, usize)
where
    T: UpdateByCutChoice<S, ArrayType = S::ArrayType>,
    O: OracleFeas<S::ArrayType, CutChoice = T>,
    S: SearchSpace,
{
    let mut k = 0;
    loop {
        if k == max {
            return (None, max);
        }
        let x = s.xc();
        match o.assess_feas(&x) {
            None => return (Some(x), k),
            Some(c) => {
                let st = s.update_bias_cut(&c);
                if st != CutStatus::Success || s.tsq() < tol {
                    return (None, k);
                }
            }
        }
        k += 1;
    }
}

pub fn ref_optim<T, O, S>(o: &mut O, s: &mut S, gamma: &mut f64, max: usize, tol: f64) -> (Option<S::ArrayType>, usize)
where
    T: UpdateByCutChoice<S, ArrayType = S::ArrayType>,
    O: OracleOptim<S::ArrayType, CutChoice = T>,
    S: SearchSpace,
{
    let mut best = None;
    let mut k = 0;
    loop {
        if k == max {
            return (best, max);
        }
        let x = s.xc();
        let (c, better) = o.assess_optim(&x, gamma);
        let st = if better { s.update_central_cut(&c) } else { s.update_bias_cut(&c) };
        if better {
            best = Some(x);
        }
        if st != CutStatus::Success || s.tsq() < tol {
            return (best, k);
        }
        k += 1;
    }
}

pub fn ref_q<T, O, S>(o: &mut O, s: &mut S, gamma: &mut f64, max: usize, tol: f64) -> (Option<S::ArrayType>, usize)
where
    T: UpdateByCutChoice<S, ArrayType = S::ArrayType>,
    O: OracleOptimQ<S::ArrayType, CutChoice = T>,
    S: SearchSpace,
{
    let mut best = None;
    let mut last = CutStatus::Success;
    let mut k = 0;
    loop {
        if k == max {
            return (best, max);
        }
        let x = s.xc();
        let (c, better, cand, more) = o.assess_optim_q(&x, gamma, last == CutStatus::NoEffect);
        if better {
            best = Some(cand);
        }
        last = s.update_q(&c);
        if last == CutStatus::NoSoln || (last == CutStatus::NoEffect && !more) || s.tsq() < tol {
            return (best, k);
        }
        k += 1;
    }
}

// ------------------------------------------------------------------ scripted parties

#[derive(Clone, Debug, PartialEq)]
pub struct Tok(pub u64);

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Query { x: u64, gamma: u64, retry: bool },
    Cut { kind: Kind, grad: u64, id: u64 },
}

type Log = Rc<RefCell<Vec<Ev>>>;

#[derive(Clone, Debug)]
struct Step {
    // oracle side
    accept: bool,
    better: bool,
    more: bool,
    gamma: Option<f64>,
    // space side
    status: u8,
    tsq: f64,
    moves: bool,
}

#[derive(Clone)]
struct Script {
    steps: Rc<Vec<Step>>,
    /// play the steps round and round (very long budgets) instead of staying at the last one
    cyclic: bool,
    /// calls beyond which the driver is certainly ignoring its budget
    cap: usize,
    /// panic at this oracle call, before (false) or after (true) writing the best value
    panic_at: Option<(usize, bool)>,
}

impl Script {
    fn at(&self, k: usize) -> &Step {
        if self.cyclic {
            return &self.steps[k % self.steps.len()];
        }
        &self.steps[k.min(self.steps.len() - 1)]
    }
}

struct StubCut(u64);

struct StubSpace<const HAS_Q: bool> {
    x: u64,
    k: usize,
    tsq: f64,
    kind: Kind,
    sc: Script,
    log: Log,
}

impl<const H: bool> StubSpace<H> {
    fn new(sc: &Script, log: &Log) -> Self {
        StubSpace { x: 1000, k: 0, tsq: f64::NAN, kind: Kind::Bias, sc: sc.clone(), log: log.clone() }
    }
    fn hit(&mut self, grad: u64, id: u64) -> CutStatus {
        self.log.borrow_mut().push(Ev::Cut { kind: self.kind, grad, id });
        let s = self.sc.at(self.k).clone();
        if self.k > self.sc.cap {
            panic!("the driver makes far more cuts than its budget");
        }
        self.k += 1;
        self.tsq = s.tsq;
        if s.moves {
            self.x = 1000 + self.k as u64;
        }
        match s.status {
            0 => CutStatus::Success,
            1 => CutStatus::NoSoln,
            2 => CutStatus::NoEffect,
            _ => CutStatus::Unknown,
        }
    }
}

impl<const H: bool> UpdateByCutChoice<StubSpace<H>> for StubCut {
    type ArrayType = Tok;
    fn update_bias_cut_by(&self, s: &mut StubSpace<H>, g: &Tok) -> CutStatus {
        s.hit(g.0, self.0)
    }
    fn update_central_cut_by(&self, s: &mut StubSpace<H>, g: &Tok) -> CutStatus {
        s.hit(g.0, self.0)
    }
    fn update_q_by(&self, s: &mut StubSpace<H>, g: &Tok) -> CutStatus {
        s.hit(g.0, self.0)
    }
}

macro_rules! stub_common {
    () => {
        type ArrayType = Tok;
        fn xc(&self) -> Tok {
            Tok(self.x)
        }
        fn tsq(&self) -> f64 {
            self.tsq
        }
        fn update_bias_cut<T>(&mut self, cut: &(Tok, T)) -> CutStatus
        where
            T: UpdateByCutChoice<Self, ArrayType = Tok>,
        {
            self.kind = Kind::Bias;
            cut.1.update_bias_cut_by(self, &cut.0)
        }
        fn update_central_cut<T>(&mut self, cut: &(Tok, T)) -> CutStatus
        where
            T: UpdateByCutChoice<Self, ArrayType = Tok>,
        {
            self.kind = Kind::Central;
            cut.1.update_central_cut_by(self, &cut.0)
        }
        fn set_xc(&mut self, x: Tok) {
            self.x = x.0;
        }
    };
}

impl SearchSpace for StubSpace<true> {
    stub_common!();
    fn update_q<T>(&mut self, cut: &(Tok, T)) -> CutStatus
    where
        T: UpdateByCutChoice<Self, ArrayType = Tok>,
    {
        self.kind = Kind::Q;
        cut.1.update_q_by(self, &cut.0)
    }
}
impl SearchSpace for StubSpace<false> {
    stub_common!();
}

struct StubOracle {
    k: usize,
    sc: Script,
    log: Log,
}

impl StubOracle {
    fn new(sc: &Script, log: &Log) -> Self {
        StubOracle { k: 0, sc: sc.clone(), log: log.clone() }
    }
    fn query(&mut self, x: &Tok, gamma: Option<&mut f64>, retry: bool) -> (usize, Step) {
        let gb = gamma.as_ref().map_or(0, |g| g.to_bits());
        self.log.borrow_mut().push(Ev::Query { x: x.0, gamma: gb, retry });
        let k = self.k;
        if k > self.sc.cap {
            panic!("the driver makes far more queries than its budget");
        }
        self.k += 1;
        let s = self.sc.at(k).clone();
        if self.sc.panic_at == Some((k, false)) {
            panic_any(Injected);
        }
        if let (Some(g), Some(v)) = (gamma, s.gamma) {
            *g = v;
        }
        if self.sc.panic_at == Some((k, true)) {
            panic_any(Injected);
        }
        (k, s)
    }
}

impl OracleFeas<Tok> for StubOracle {
    type CutChoice = StubCut;
    fn assess_feas(&mut self, x: &Tok) -> Option<(Tok, StubCut)> {
        let (k, s) = self.query(x, None, false);
        if s.accept { None } else { Some((Tok(500_000 + k as u64), StubCut(k as u64))) }
    }
}
impl OracleOptim<Tok> for StubOracle {
    type CutChoice = StubCut;
    fn assess_optim(&mut self, x: &Tok, gamma: &mut f64) -> ((Tok, StubCut), bool) {
        let (k, s) = self.query(x, Some(gamma), false);
        ((Tok(500_000 + k as u64), StubCut(k as u64)), s.better)
    }
}
impl OracleOptimQ<Tok> for StubOracle {
    type CutChoice = StubCut;
    fn assess_optim_q(&mut self, x: &Tok, gamma: &mut f64, retry: bool) -> ((Tok, StubCut), bool, Tok, bool) {
        let (k, s) = self.query(x, Some(gamma), retry);
        ((Tok(500_000 + k as u64), StubCut(k as u64)), s.better, Tok(900_000 + k as u64), s.more)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Which {
    Feas,
    Optim,
    Q,
}

fn up(x: f64) -> f64 {
    f64::from_bits(x.to_bits() + 1)
}
fn down(x: f64) -> f64 {
    f64::from_bits(x.to_bits() - 1)
}

struct Setup {
    sc: Script,
    opt: Options,
    gamma0: f64,
}

fn setup(ctx: &mut Ctx, w: Which) -> Setup {
    // a few very long runs: a short script without any reason to stop, played round and round
    let marathon = ctx.chance(1, 20_000);
    let max_iters = if marathon { ctx.logu(2600.0, 150_000.0) as usize } else { match ctx.pick(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=7 => ctx.range(3, 12),
        8 | 9 => ctx.range(13, 80),
        10 => ctx.range(81, if ctx.deep { 6000 } else { 2600 }),
        _ => usize::MAX,
    } };
    let tol = match ctx.pick(6) {
        0 => 1e-20,
        1 => 0.0,
        2 => 1e-8,
        3 => 1.0,
        4 => 1e3,
        _ => ctx.logu(1e-12, 1e2),
    };
    // a run that never stops by itself must be bounded by the script: the last step always stops
    let len = if marathon { ctx.range(1, 12) } else if max_iters == usize::MAX { ctx.range(1, 60) } else { max_iters + 3 };
    // mean time to a stop event; 0 = never
    let stop_den = match ctx.pick(4) {
        _ if marathon => 0,
        0 => 0,
        1 => 4,
        2 => 12,
        _ => 40,
    };
    // the measure may follow a trend instead of jumping about (scripts are shorter than the range of f64 allows)
    let trend = if ctx.chance(1, 8) && len <= 200 {
        ctx.cover("measures that follow a trend");
        Some((ctx.logu(1.0, 1e3), [1.0, 1.0, 1.01, 2.0, 30.0, 0.97, 0.5][ctx.idx(7)]))
    } else {
        None
    };
    let mut steps = Vec::with_capacity(len);
    for i in 0..len {
        let stop = stop_den > 0 && ctx.chance(1, stop_den);
        let lastforced = max_iters == usize::MAX && i + 1 == len;
        let stop = stop || lastforced;
        let how = if stop { ctx.pick(5) } else { 9 };
        let accept = w == Which::Feas && stop && how < 2;
        let mut status = 0u8;
        let mut tsq = if tol > 0.0 {
            match ctx.pick(6) {
                0 => tol,
                1 => up(tol),
                2 => 1e30,
                3 => f64::INFINITY,
                _ => tol * ctx.uni(1.0, 10.0) + 1e-300,
            }
        } else {
            [0.0, 1.0, 1e30][ctx.idx(3)]
        };
        if let Some((base, ratio)) = trend {
            let floor = if tol > 0.0 { tol } else { 1e-3 };
            // falling trends come down to the tolerance, rising ones start from it
            tsq = floor * if ratio < 1.0 { base * 1e9 * f64::powi(ratio, i as i32) } else { base * f64::powi(ratio, i as i32) };
        }
        if tsq < tol {
            tsq = tol;
        }
        let mut more = ctx.chance(1, 2);
        if stop && !accept {
            match how {
                2 if tol > 0.0 => tsq = match ctx.pick(4) {
                    0 => down(tol),
                    1 => 0.0,
                    2 => -1.0,
                    _ => tol * ctx.uni(0.0, 0.999),
                },
                3 => {
                    status = 2;
                    more = false;
                }
                4 if w != Which::Q => status = 3,
                _ => status = 1,
            }
        } else if !stop && w == Which::Q && ctx.chance(1, 4) {
            status = 2;
            more = true;
        }
        let gamma = if ctx.chance(1, 2) {
            Some(match ctx.pick(8) {
                0 => f64::INFINITY,
                1 => f64::NEG_INFINITY,
                2 => -0.0,
                3 => f64::NAN,
                _ => ctx.uni(-10.0, 10.0),
            })
        } else {
            None
        };
        let moves = status == 0 || ctx.chance(1, 3);
        steps.push(Step { accept, better: ctx.chance(1, 3), more, gamma, status, tsq, moves });
    }
    let panic_at = if ctx.chance(1, 5) {
        let horizon = if marathon { max_iters } else { len.min(30) };
        Some((ctx.idx(horizon), ctx.chance(1, 2)))
    } else {
        None
    };
    let gamma0 = [f64::INFINITY, 0.0, -1.5, f64::NEG_INFINITY][ctx.idx(4)];
    let verbose = ctx.chance(1, 4) && !marathon;
    if marathon {
        ctx.cover("budgets of thousands of cuts used up or nearly so");
    }
    let cap = if max_iters == usize::MAX { len + 1000 } else { max_iters + 1000 };
    Setup { sc: Script { steps: Rc::new(steps), cyclic: marathon, cap, panic_at }, opt: if verbose { Options { max_iters, tolerance: tol, verbose } } else { Options::new(max_iters, tol) }, gamma0 }
}

type Res = Result<(Option<Tok>, usize), ()>;

fn stub_case<const H: bool>(ctx: &mut Ctx, w: Which) -> Outcome
where
    StubSpace<H>: SearchSpace<ArrayType = Tok>,
{
    let s = setup(ctx, w);
    let run = |real: bool| -> (Res, f64, Vec<Ev>, u64) {
        let log: Log = Rc::new(RefCell::new(Vec::new()));
        let mut o = StubOracle::new(&s.sc, &log);
        let mut sp = StubSpace::<H>::new(&s.sc, &log);
        let mut g = s.gamma0;
        let (m, t) = (s.opt.max_iters, s.opt.tolerance);
        let r = catch_unwind(AssertUnwindSafe(|| match (w, real) {
            (Which::Feas, true) => cutting_plane_feas(&mut o, &mut sp, &s.opt),
            (Which::Feas, false) => ref_feas(&mut o, &mut sp, m, t),
            (Which::Optim, true) => cutting_plane_optim(&mut o, &mut sp, &mut g, &s.opt),
            (Which::Optim, false) => ref_optim(&mut o, &mut sp, &mut g, m, t),
            (Which::Q, true) => cutting_plane_optim_q(&mut o, &mut sp, &mut g, &s.opt),
            (Which::Q, false) => ref_q(&mut o, &mut sp, &mut g, m, t),
        }));
        let r = match r {
            Ok(v) => Ok(v),
            Err(e) => {
                if e.downcast_ref::<Injected>().is_none() {
                    std::panic::resume_unwind(e);
                }
                Err(())
            }
        };
        let l = log.borrow().clone();
        (r, g, l, sp.x)
    };
    let (wr, wg, wl, wx) = run(false);
    let (r, g, l, x) = run(true);
    ctx.steps += l.len() as u64;
    if wr.is_err() {
        ctx.fault("oracle panic");
    }
    ev!(ctx, "{w:?} driver, stub space (own discrete cut: {H}), budget {}, tolerance {:e}, panic {:?}", s.opt.max_iters, s.opt.tolerance, s.sc.panic_at);
    if ctx.log_on {
        for (i, e) in wl.iter().enumerate().take(40) {
            ev!(ctx, "protocol {i}: {e:?} (driver did {:?})", l.get(i));
        }
        ev!(ctx, "protocol result {wr:?} best value {wg:?}; driver result {r:?} best value {g:?}");
    }
    for st in s.sc.steps.iter().take(wl.len() / 2 + 1) {
        ctx.sym(st.status as u64 + 8 * st.accept as u64 + 16 * st.better as u64 + 32 * st.more as u64 + 64 * (st.tsq < s.opt.tolerance) as u64);
        if st.status != 0 {
            ctx.fault("scripted non-success status");
        }
    }
    ctx.sym(wl.len() as u64);
    if l.len() >= 2 {
        ctx.nontrivial = true;
    }
    match &wr {
        Ok((Some(_), _)) => ctx.cover("runs returning a point"),
        Ok((None, _)) => ctx.cover("runs returning no point"),
        Err(_) => ctx.cover("runs ended by a panic"),
    }
    if matches!(&wr, Ok((_, k)) if *k == s.opt.max_iters) {
        ctx.cover("runs ended by the budget");
    }
    if l != wl {
        let i = l.iter().zip(&wl).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "{w:?} driver departs from the protocol at action {i}: expected {:?}, did {:?} (budget {}, tolerance {:e}; the preceding action was {:?})",
            wl.get(i), l.get(i), s.opt.max_iters, s.opt.tolerance, if i > 0 { wl.get(i - 1) } else { None }
        ));
    }
    ctx.checks += l.len() as u64;
    ensure!(ctx, r == wr, "{w:?} driver returned {r:?}, the protocol gives {wr:?} (budget {}, tolerance {:e})", s.opt.max_iters, s.opt.tolerance);
    ensure!(ctx, g.to_bits() == wg.to_bits(), "{w:?} driver left best value {g:?}, the oracle last set {wg:?}");
    ensure!(ctx, x == wx, "{w:?} driver left the space at centre {x}, the protocol at {wx}");
    Ok(())
}

// ------------------------------------------------------------------ real regions

#[derive(Clone)]
struct Planned {
    g: Vec<f64>,
    cut: AnyCut,
    accept: bool,
    better: bool,
    more: bool,
    gamma: f64,
}

struct RealOracle {
    k: usize,
    plan: Rc<Vec<Planned>>,
    panic_at: Option<usize>,
    log: Vec<(Vec<u64>, u64, bool)>,
}

impl RealOracle {
    fn query(&mut self, x: &Arr, gamma: &mut f64, retry: bool) -> Planned {
        self.log.push((bits(x.data()), gamma.to_bits(), retry));
        let k = self.k;
        if k > 20_000 {
            panic!("the driver makes far more queries than its budget");
        }
        self.k += 1;
        if self.panic_at == Some(k) {
            panic_any(Injected);
        }
        let p = self.plan[k.min(self.plan.len() - 1)].clone();
        if p.better {
            *gamma = p.gamma;
        }
        p
    }
}
impl OracleFeas<Arr> for RealOracle {
    type CutChoice = AnyCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, AnyCut)> {
        let p = self.query(x, &mut 0.0, false);
        if p.accept { None } else { Some((arr(&p.g), p.cut)) }
    }
}
impl OracleOptim<Arr> for RealOracle {
    type CutChoice = AnyCut;
    fn assess_optim(&mut self, x: &Arr, gamma: &mut f64) -> ((Arr, AnyCut), bool) {
        let p = self.query(x, gamma, false);
        ((arr(&p.g), p.cut), p.better)
    }
}
impl OracleOptimQ<Arr> for RealOracle {
    type CutChoice = AnyCut;
    fn assess_optim_q(&mut self, x: &Arr, gamma: &mut f64, retry: bool) -> ((Arr, AnyCut), bool, Arr, bool) {
        let p = self.query(x, gamma, retry);
        let cand = arr(&x.data().iter().map(|v| v + p.gamma).collect::<Vec<_>>());
        ((arr(&p.g), p.cut), p.better, cand, p.more)
    }
}

fn real_case(ctx: &mut Ctx, w: Which) -> Outcome {
    let n = ctx.range(2, 6);
    let (init, c) = gen_init(ctx, n);
    let which = ctx.idx(5);
    let mut base = init.make(which, &c);
    base.rec = Some(Vec::new());
    let max = ctx.range(0, 25);
    let tol = if ctx.chance(1, 3) { ctx.logu(1e-12, 1.0) } else { 1e-20 };
    // offsets are planned against the region as it will be, by playing the protocol on a clone
    let mut shadow = base.clone();
    let mut plan = Vec::new();
    let mut prev = Vec::new();
    for _ in 0..max + 2 {
        let mut q = if ctx.chance(1, 14) { gen_infeasible(ctx, n, &prev) } else { gen_cut(ctx, n, &prev) };
        let better = ctx.chance(1, 3);
        q.kind = match w {
            Which::Feas => Kind::Bias,
            Which::Optim => if better { Kind::Central } else { Kind::Bias },
            Which::Q => Kind::Q,
        };
        if w != Which::Q && q.b0 < 0.0 {
            q.b0 = -q.b0;
            q.b1 = q.b1.map(|b| b.max(q.b0 + 0.01));
        }
        let tau = shadow.half_sq(&q.g).sqrt();
        let cut = q.cut(tau);
        shadow.apply(q.kind, &q.g, &cut);
        prev.push(q.g.clone());
        plan.push(Planned { g: q.g.clone(), cut, accept: w == Which::Feas && ctx.chance(1, 25), better, more: ctx.chance(3, 4), gamma: ctx.uni(-5.0, 5.0) });
    }
    let plan = Rc::new(plan);
    let panic_at = if ctx.chance(1, 6) { Some(ctx.idx(max + 1)) } else { None };
    let opt = Options { max_iters: max, tolerance: tol, verbose: ctx.chance(1, 4) };
    let run = |real: bool| {
        let mut o = RealOracle { k: 0, plan: plan.clone(), panic_at, log: Vec::new() };
        let mut sp = base.clone();
        let mut g = f64::INFINITY;
        let r = catch_unwind(AssertUnwindSafe(|| match (w, real) {
            (Which::Feas, true) => cutting_plane_feas(&mut o, &mut sp, &opt),
            (Which::Feas, false) => ref_feas(&mut o, &mut sp, max, tol),
            (Which::Optim, true) => cutting_plane_optim(&mut o, &mut sp, &mut g, &opt),
            (Which::Optim, false) => ref_optim(&mut o, &mut sp, &mut g, max, tol),
            (Which::Q, true) => cutting_plane_optim_q(&mut o, &mut sp, &mut g, &opt),
            (Which::Q, false) => ref_q(&mut o, &mut sp, &mut g, max, tol),
        }));
        let r = match r {
            Ok((x, k)) => Some((x.map(|a| bits(a.data())), k)),
            Err(e) => {
                if e.downcast_ref::<Injected>().is_none() {
                    std::panic::resume_unwind(e);
                }
                None
            }
        };
        (r, g.to_bits(), o.log, sp.rec.clone().unwrap(), bits(&sp.center()))
    };
    let (a, b) = (run(false), run(true));
    ctx.steps += b.2.len() as u64;
    ctx.nontrivial |= b.3.len() > 0;
    ctx.sym(which as u64 + 10 * n as u64);
    for r in &b.3 {
        ctx.sym(r.kind as u64 * 4 + r.status as u64);
        if r.status != 0 {
            ctx.fault("cut rejected by a real region");
        }
    }
    if b.0.is_none() {
        ctx.fault("oracle panic");
    }
    ctx.cover("runs on real regions");
    ev!(ctx, "{w:?} driver on real {} region, dimension {n}, budget {max}, tolerance {tol:e}: {} queries, {} cuts, result {:?}", base.name(), b.2.len(), b.3.len(), b.0);
    ensure!(ctx, a.2 == b.2, "{w:?} driver on a real region: query sequence departs from the protocol at query {}", a.2.iter().zip(&b.2).take_while(|(x, y)| x == y).count());
    ensure!(ctx, a.3 == b.3, "{w:?} driver on a real region: cut sequence departs from the protocol at cut {}", a.3.iter().zip(&b.3).take_while(|(x, y)| x == y).count());
    ensure!(ctx, a.0 == b.0, "{w:?} driver on a real region returned {:?}, the protocol gives {:?}", b.0, a.0);
    ensure!(ctx, a.1 == b.1 && a.4 == b.4, "{w:?} driver on a real region left a different best value or centre than the protocol");
    Ok(())
}

fn c05(ctx: &mut Ctx) -> Outcome {
    if ctx.chance(1, 4) { real_case(ctx, Which::Feas) } else { stub_case::<true>(ctx, Which::Feas) }
}
fn c06(ctx: &mut Ctx) -> Outcome {
    if ctx.chance(1, 4) { real_case(ctx, Which::Optim) } else { stub_case::<true>(ctx, Which::Optim) }
}
fn c07(ctx: &mut Ctx) -> Outcome {
    match ctx.pick(8) {
        6 | 7 => real_case(ctx, Which::Q),
        4 | 5 => stub_case::<false>(ctx, Which::Q),
        _ => stub_case::<true>(ctx, Which::Q),
    }
}

const REAL: &str = "cutting_plane_feas / cutting_plane_optim / cutting_plane_optim_q; in a quarter of the runs also the real Ell, EllStable and EllCalc";
const STUB: &str = "oracle (scripted replies, best values, panics); in the other runs the search space (scripted statuses, measures, centres)";
const RULE: &str = "one run = one script of oracle replies, space statuses and measures, budget, tolerance and panic point, played by the real driver and by a reference loop; non-trivial when at least one cut was made; distinct by the abstract script actually consumed";
const MEASURE: &str = "hash of the consumed sequence of (status, accepted, improved, alternative left, below tolerance) and its length";
const ASSUME: &[&str] = &["measures reported by the space are not NaN", "numbers of calls to the read-only accessors (centre, measure) are not part of the protocol"];

pub const C05: Prop = Prop { id: "C05", run: c05, quick: 6000000, thorough: 40000000, rule: RULE, measure: MEASURE, real: REAL, stub: STUB, assumptions: ASSUME };
pub const C06: Prop = Prop { id: "C06", run: c06, quick: 6000000, thorough: 40000000, rule: RULE, measure: MEASURE, real: REAL, stub: STUB, assumptions: ASSUME };
pub const C07: Prop = Prop { id: "C07", run: c07, quick: 6000000, thorough: 40000000, rule: RULE, measure: MEASURE, real: REAL, stub: STUB,
    assumptions: &["measures reported by the space are not NaN", "spaces answer the discrete driver with success, no-solution or no-effect (an unknown status has no documented meaning there)", "numbers of calls to the read-only accessors are not part of the protocol"] };
