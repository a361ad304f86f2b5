//! C12, C13: progress within the volume bound under adversarial replies and interruptions.
use super::bisect::guarded;
use super::Prop;
use crate::ctx::{Ctx, Outcome};
use crate::la::*;
use crate::problems::*;
use crate::run::Injected;
use crate::spaces::*;
use crate::tape::hash64;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use std::panic::panic_any;

/// The feasible set is the ball itself; every reply is a half-space containing the ball whose
/// boundary passes through (or beyond) the query, chosen by the adversary.
#[derive(Clone)]
struct BallAdv {
    z: V,
    r: f64,
    seed: u64,
    k: u64,
    tilt: u8,
    depth: u8,
}

enum Adv {
    Lp(Lp),
    Ball(BallAdv),
}

struct Game {
    adv: Adv,
    calls: usize,
    panic_at: Option<usize>,
    dup: bool,
    last: Option<(Vec<u64>, (Arr, AnyCut))>,
}

fn hn(h: u64) -> f64 {
    let a = (hash64(&[h, 1]) >> 11) as f64 / (1u64 << 53) as f64;
    let b = (hash64(&[h, 2]) >> 11) as f64 / (1u64 << 53) as f64;
    (-2.0 * (1.0 - a).ln()).sqrt() * (std::f64::consts::TAU * b).cos()
}

impl BallAdv {
    fn reply(&mut self, x: &[f64]) -> Option<(Arr, AnyCut)> {
        let n = x.len();
        self.k += 1;
        let d = sub(x, &self.z);
        let dist = norm(&d);
        if dist <= self.r {
            return None;
        }
        let u = scale(&d, 1.0 / dist);
        let h = hash64(&[self.seed, self.k]);
        let mut w: V = (0..n).map(|i| hn(hash64(&[h, i as u64]))).collect();
        let p = dot(&w, &u);
        w = axpy(&w, -p, &u);
        let wn = norm(&w);
        let cmin = (self.r / dist).min(1.0);
        let t = match self.tilt {
            0 => 0.0,
            1 => 0.999,
            _ => (h >> 30 & 0xff) as f64 / 256.0,
        };
        // cosine between the outward normal and u, at least r/dist
        let c = 1.0 - t * (1.0 - cmin);
        let g = if wn > 1e-9 { axpy(&scale(&u, c), (1.0 - c * c).max(0.0).sqrt() / wn, &w) } else { u };
        let gs = [1.0, 37.0, 0.02][(h % 3) as usize];
        let full = (dot(&g, &d) - self.r * norm(&g)).max(0.0);
        let f = match self.depth {
            0 => 0.0,
            1 => full,
            _ => full * ((h >> 40 & 0xff) as f64 / 255.0),
        };
        Some((arr(&scale(&g, gs)), AnyCut::Single(f * gs)))
    }
}

impl Game {
    fn pre(&mut self) {
        let k = self.calls;
        self.calls += 1;
        if self.calls > 300_000 {
            panic!("the search makes far more queries than its budget");
        }
        if self.panic_at == Some(k) {
            self.panic_at = None;
            panic_any(Injected);
        }
    }
}

impl OracleFeas<Arr> for Game {
    type CutChoice = AnyCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, AnyCut)> {
        self.pre();
        let _ = (&self.dup, &self.last);
        match &mut self.adv {
            Adv::Lp(l) => l.feas(x),
            Adv::Ball(b) => b.reply(x.data()),
        }
    }
}
impl OracleOptim<Arr> for Game {
    type CutChoice = AnyCut;
    fn assess_optim(&mut self, x: &Arr, g: &mut f64) -> ((Arr, AnyCut), bool) {
        self.pre();
        match &mut self.adv {
            Adv::Lp(l) => l.optim(x, g),
            _ => unreachable!(),
        }
    }
}

fn ln_ratio(p: &Mat, r: f64) -> f64 {
    let l = p.chol().expect("region");
    let n = l.n;
    (0..n).map(|i| l.at(i, i).ln()).sum::<f64>() - n as f64 * r.ln()
}

fn c12(ctx: &mut Ctx) -> Outcome {
    let n = if ctx.chance(1, 60) { ctx.range(8, 14) } else { ctx.size(2, 7, 24) };
    let (init, c) = gen_init(ctx, n);
    let which = ctx.idx(4);
    let reg = Region { c: c.clone(), p: init.p(n) };
    let r_lo = [0.5, 0.1, 1e-2, 1e-3][ctx.idx(4)];
    let (spec, z, r) = gen_lp(ctx, &reg, r_lo);
    let ball = ctx.chance(1, 3);
    let adv = if ball {
        Adv::Ball(BallAdv { z: z.clone(), r, seed: spec.seed, k: 0, tilt: ctx.pick(3) as u8, depth: ctx.pick(3) as u8 })
    } else {
        Adv::Lp(Lp::new(&spec))
    };
    let bound = 2.0 * (n as f64 + 1.0) * ln_ratio(&reg.p, r) + 1.0;
    let budget = bound.floor() as usize;
    let gmin = if ball { 0.02 } else { spec.a.iter().map(|g| norm(g)).fold(f64::INFINITY, f64::min) };
    // every region that still holds the ball has at least this squared half-width
    let tol = if ctx.chance(1, 2) { 0.25 * (r * gmin).powi(2) } else { 0.0 };
    let mut game = Game { adv, calls: 0, panic_at: None, dup: false, last: None };
    let mut sp = init.make(which, &c);
    ev!(ctx, "{} region of dimension {n}, feasible ball of radius {r:e}, {} ({}), guaranteed cuts {bound:.1}", sp.name(),
        if ball { "ball adversary".to_string() } else { format!("{} constraints, selection policy {}, depth mode {}, two-sided {}", spec.a.len(), spec.policy, spec.depth, spec.two_sided) },
        if tol > 0.0 { "tolerance from the ball" } else { "no tolerance" });
    ctx.sym(which as u64 + 8 * n as u64 + 100 * (ball as u64) + 1000 * spec.policy as u64 + 10000 * spec.depth as u64);
    let chop = ctx.chance(1, 3);
    let mut guard = 0;
    loop {
        let left = budget + 1 - (sp.calls as usize).min(budget + 1);
        let b = if chop { 1 + ctx.idx(left.max(1)) } else { left + 1 };
        if chop && ctx.chance(1, 3) {
            game.panic_at = Some(game.calls + ctx.idx(b));
        }
        guard += 1;
        let res = guarded(|| cutting_plane_feas(&mut game, &mut sp, &Options { max_iters: b, tolerance: tol, verbose: false }));
        game.panic_at = None;
        ctx.nontrivial |= sp.calls > 0;
        match res {
            None => {
                ctx.fault("oracle panic");
                if guard < 100 {
                    continue;
                }
                return Ok(());
            }
            Some((Some(x), _)) => {
                let x = x.data();
                let ok = if ball { norm(&sub(x, &z)) <= r } else { Lp::worst(&spec, x) <= 0.0 };
                ev!(ctx, "accepted after {} cuts (guaranteed {bound:.1})", sp.calls);
                ensure!(ctx, ok, "the returned point is not feasible");
                ensure!(ctx, sp.calls as f64 <= bound, "{} cuts were needed; the volume bound guarantees {bound:.2} (dimension {n}, {} region)", sp.calls, sp.name());
                ctx.steps += sp.calls;
                ctx.sym(sp.calls);
                break;
            }
            Some((None, it)) if it == b => {
                ctx.fault("cancelled by budget");
                ensure!(ctx, (sp.calls as f64) <= bound,
                    "no feasible point after {} cuts; the volume bound guarantees one within {bound:.2} (dimension {n}, {} region)", sp.calls, sp.name());
            }
            Some((None, _)) => {
                ctx.checks += 1;
                return Err(format!(
                    "the search gives up after {} cuts although a ball of radius {r:e} around {z:?} is feasible (dimension {n}, {} region, squared half-width {:e}, tolerance {tol:e})",
                    sp.calls, sp.name(), sp.measure()));
            }
        }
    }
    Ok(())
}

fn c13(ctx: &mut Ctx) -> Outcome {
    let n = if ctx.chance(1, 50) { ctx.range(6, 16) } else { ctx.range(2, 5) };
    let (init, c0) = gen_init(ctx, n);
    let which = ctx.idx(4);
    let reg = Region { c: c0.clone(), p: init.p(n) };
    let l = reg.p.chol().ok_or("harness: region")?;
    let (w, _) = reg.p.eig();
    let small = w.iter().cloned().fold(f64::INFINITY, f64::min).sqrt();
    // interior ball and optimum, both inside the region
    let u = ctx.unit_vec(n);
    let rho = ctx.uni(0.0, 0.7);
    let z = axpy(&reg.c, rho, &l.mv(&u));
    let r = ctx.logu(0.03, 0.9) * (1.0 - rho) * small;
    let v = ctx.unit_vec(n);
    let mut xs = axpy(&reg.c, ctx.uni(0.2, 0.95), &l.mv(&v));
    let mut d = sub(&xs, &z);
    if norm(&d) < 1.2 * r {
        d = scale(&d, 1.2 * r / norm(&d).max(1e-300));
        if norm(&d) < 1.1 * r {
            return Ok(());
        }
        xs = axpy(&z, 1.0, &d);
        let y = l.fsolve(&sub(&xs, &reg.c));
        if dot(&y, &y) > 1.0 {
            return Ok(());
        }
    }
    let dist = norm(&d);
    let dh = scale(&d, 1.0 / dist);
    let (mut a, mut lo, mut hi) = (Vec::new(), Vec::new(), Vec::new());
    let mut c = vec![0.0; n];
    for _ in 0..ctx.range(1, n + 1) {
        let mut wv = ctx.unit_vec(n);
        let p = dot(&wv, &dh);
        wv = axpy(&wv, -p, &dh);
        let wn = norm(&wv);
        let cos = 1.0 - ctx.unit() * (1.0 - 1.05 * r / dist);
        let mut g = if wn > 1e-9 { axpy(&scale(&dh, cos), (1.0 - cos * cos).max(0.0).sqrt() / wn, &wv) } else { dh.clone() };
        g = scale(&g, ctx.logu(0.1, 10.0));
        c = axpy(&c, -ctx.logu(0.05, 2.0), &g);
        hi.push(dot(&g, &xs));
        lo.push(f64::NEG_INFINITY);
        a.push(g);
    }
    for _ in 0..ctx.range(0, n + 2) {
        let g = gen_grad(ctx, n, &a);
        let gn = norm(&g);
        let top = dot(&g, &xs).max(dot(&g, &z) + r * gn);
        let bot = dot(&g, &xs).min(dot(&g, &z) - r * gn);
        hi.push(top + if ctx.chance(1, 2) { 0.0 } else { ctx.uni(0.0, 2.0) * r * gn });
        lo.push(if ctx.chance(1, 3) { bot - ctx.uni(0.0, 1.0) * r * gn } else { f64::NEG_INFINITY });
        a.push(g);
    }
    let cn = norm(&c);
    if cn < 1e-6 {
        return Ok(());
    }
    let spec = LpSpec { a, lo, hi, c: c.clone(), policy: ctx.pick(6) as u8, depth: ctx.pick(3) as u8, two_sided: ctx.chance(1, 2), seed: ctx.pick(1 << 40) };
    let fstar = dot(&c, &xs);
    let span = dot(&c, &z) + cn * r - fstar;
    let lr = ln_ratio(&reg.p, r);
    let nf = n as f64;
    let alpha_min = 1e-4;
    let kmax = (2.0 * (nf + 1.0) * (lr - nf * f64::ln(alpha_min))).ceil() as usize;
    let gmin = spec.a.iter().map(|g| norm(g)).fold(cn, f64::min);
    // stop once the region is thinner than alpha_min/2 times the ball in some cut direction
    let tol = (0.5 * alpha_min * r * gmin).powi(2);
    let scale_f = cn * (norm(&xs) + norm(&z) + r) + span.abs();
    let eps = 1e-9 * scale_f;
    let mut game = Game { adv: Adv::Lp(Lp::new(&spec)), calls: 0, panic_at: None, dup: false, last: None };
    let mut sp = init.make(which, &c0);
    let mut gamma = f64::INFINITY;
    let mut inc: Option<V> = None;
    let mut lost = false;
    ev!(ctx, "{} region of dimension {n}, {} constraints, policy {}, depth mode {}, two-sided {}, optimum {fstar}, interior ball radius {r:e}, up to {kmax} cuts", sp.name(), spec.a.len(), spec.policy, spec.depth, spec.two_sided);
    ctx.sym(which as u64 + 8 * n as u64 + 1000 * spec.policy as u64 + 10000 * spec.depth as u64);
    let mut segs = 0;
    let chop = ctx.pick(3);
    loop {
        segs += 1;
        let left = kmax.saturating_sub(sp.calls as usize);
        if left == 0 || segs > 400 {
            break;
        }
        let b = match chop {
            0 => left,
            1 => (1 + ctx.idx(25)).min(left),
            _ => 1 + ctx.idx(left),
        };
        if ctx.chance(1, 8) {
            game.panic_at = Some(game.calls + ctx.idx(b));
        }
        let before = gamma;
        let res = guarded(|| cutting_plane_optim(&mut game, &mut sp, &mut gamma, &Options { max_iters: b, tolerance: tol, verbose: false }));
        game.panic_at = None;
        let k = sp.calls as f64;
        ctx.nontrivial |= sp.calls > 0;
        ensure!(ctx, gamma <= before, "the best value rose from {before} to {gamma}");
        ensure!(ctx, gamma >= fstar - eps, "the best value {gamma} is below the true optimum {fstar}");
        match &res {
            Some((x, _)) => {
                if let Some(x) = x {
                    inc = Some(vec_of(x));
                    lost = false;
                }
                if !lost {
                    match &inc {
                        Some(x) => {
                            ensure!(ctx, Lp::worst(&spec, x) <= 0.0, "the incumbent violates a constraint by {:e}", Lp::worst(&spec, x));
                            ensure!(ctx, dot(&c, x) == gamma, "the best value {gamma} is not the objective {} at the incumbent", dot(&c, x));
                        }
                        None => ensure!(ctx, gamma == f64::INFINITY, "a best value {gamma} without an incumbent"),
                    }
                }
            }
            None => {
                ctx.fault("oracle panic");
                // the incumbent of a crashed segment is known to the oracle only
                lost |= gamma != before;
            }
        }
        let alpha = ((lr - k / (2.0 * (nf + 1.0))) / nf).exp();
        if alpha < 1.0 {
            ctx.cover("rate checks below the trivial bound");
            ensure!(ctx, gamma - fstar <= alpha * span * (1.0 + 1e-6) + eps,
                "after {} cuts the gap is {:e}; the volume bound guarantees {:e} (dimension {n}, {} region)", sp.calls, gamma - fstar, alpha * span, sp.name());
        }
        if let Some((_, it)) = res {
            if it != b {
                // stopped by itself, for whatever reason: a region that still holds the ball scaled
                // towards the optimum is thicker than the tolerance, so the gap must be small
                let a2 = tol.sqrt() / (r * gmin);
                ctx.cover("stopped by itself");
                ensure!(ctx, gamma - fstar <= a2 * span * (1.0 + 1e-6) + eps, "the search stops by itself after {} cuts with gap {:e}; the points it still had to consider allow at most {:e} (squared half-width {:e}, dimension {n}, {} region)", sp.calls, gamma - fstar, a2 * span, sp.measure(), sp.name());
                break;
            }
            if b < left {
                ctx.fault("cancelled by budget");
            }
        }
    }
    ev!(ctx, "{} cuts in {segs} segments, best value {gamma}, gap {:e}", sp.calls, gamma - fstar);
    ctx.steps += sp.calls;
    ctx.sym(sp.calls);
    ctx.sym(segs as u64);
    Ok(())
}

pub const C12: Prop = Prop {
    id: "C12", run: c12, quick: 3600000, thorough: 30000000,
    rule: "one run = one region, one feasible set with a known inscribed ball and one adversary choosing among violated constraints (or among all half-spaces containing the ball), with cancellations and panics; non-trivial when a cut was made; distinct by configuration, number of cuts and faults",
    measure: "hash of region kind, dimension, adversary, number of cuts and faults",
    real: "cutting_plane_feas, Ell, EllStable, EllCalc", stub: "the adversarial oracle; a user-written space in a quarter of the runs",
    assumptions: &["radius of the feasible ball at least a thousandth of the region's smallest semi-axis"],
};
pub const C13: Prop = Prop {
    id: "C13", run: c13, quick: 1200000, thorough: 10000000,
    rule: "one run = one linear program with an optimum known by construction, solved under one constraint-selection schedule with cancellations and panics; bounds checked after every segment; non-trivial when a cut was made; distinct by configuration, number of cuts, segments and faults",
    measure: "hash of region kind, dimension, selection policy, number of cuts, segments and faults",
    real: "cutting_plane_optim, Ell, EllStable, EllCalc", stub: "the linear-program oracle; a user-written space in a quarter of the runs",
    assumptions: &["gaps are followed down to 1e-4 of the objective span", "values compared within 1e-9 of the objective scale"],
};
