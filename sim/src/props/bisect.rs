//! C08, C09: bisection and the probe adaptor under scripted answers, flips, panics and resumption.
use super::drivers::ref_feas;
use super::Prop;
use crate::ctx::{Ctx, Outcome};
use crate::la::*;
use crate::run::Injected;
use crate::spaces::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};

/// true = finished, false = an injected panic unwound out of f
pub fn guarded<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            if e.downcast_ref::<Injected>().is_none() {
                resume_unwind(e);
            }
            None
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Ans {
    /// feasible from this level up
    Threshold(f64),
    /// as scripted, whatever the level
    Script,
}

struct Probe {
    ans: Ans,
    flips: Vec<bool>,
    panic_at: Option<usize>,
    k: usize,
    log: Vec<(f64, bool)>,
    limit: usize,
}

impl OracleBS for Probe {
    fn assess_bs(&mut self, gamma: f64) -> bool {
        let k = self.k;
        self.k += 1;
        if self.log.len() > self.limit {
            panic!("bisection makes more probes than its budget");
        }
        if self.panic_at == Some(k) {
            panic_any(Injected);
        }
        let f = self.flips.get(k).copied().unwrap_or(false);
        let a = match self.ans {
            Ans::Threshold(t) => (gamma >= t) ^ f,
            Ans::Script => f,
        };
        self.log.push((gamma, a));
        a
    }
}

fn c08(ctx: &mut Ctx) -> Outcome {
    // exact: dyadic numbers for which every midpoint in reach is computed without rounding
    let exact = ctx.chance(1, 2);
    let (lo0, hi0, tol, scale);
    if exact {
        let e = ctx.range(0, 20) as i32 - 10;
        let u = 2f64.powi(e);
        let a = ctx.range(0, 64) as f64 - 32.0;
        let w = match ctx.pick(4) {
            0 => 1.0,
            1 => 2f64.powi(ctx.range(0, 6) as i32),
            2 => ctx.range(0, 12) as f64,
            _ => 0.0,
        };
        lo0 = a * u;
        hi0 = (a + w) * u;
        tol = match ctx.pick(5) {
            0 => 0.0,
            1 => w * u / 2f64.powi(ctx.range(1, 30) as i32),
            2 => u * ctx.range(1, 5) as f64 / 2f64.powi(ctx.range(0, 20) as i32),
            3 => w * u,
            _ => u * 2f64.powi(-30),
        };
        scale = 0.0;
    } else {
        let s = match ctx.pick(4) {
            0 => ctx.logu(1e-150, 1e-3),
            1 => ctx.logu(1e3, 1e150),
            _ => ctx.logu(1e-2, 1e2),
        };
        // one end at or near zero: the bracket spans many orders of magnitude
        let wide = ctx.chance(1, 5);
        let a = match (wide, ctx.pick(3)) {
            (true, 0) => 0.0,
            (true, _) => ctx.logu(1e-15, 1e-2) * s,
            _ => ctx.uni(-3.0, 3.0) * s,
        };
        let w = match ctx.pick(5) {
            _ if wide => ctx.uni(0.5, 5.0) * s,
            0 => 0.0,
            1 => ctx.logu(1e-15, 1e-3) * s,
            _ => ctx.uni(0.0, 5.0) * s,
        };
        (lo0, hi0) = if wide && ctx.chance(1, 3) { (-a - w, -a) } else { (a, a + w) };
        tol = match ctx.pick(4) {
            0 => 0.0,
            1 => ctx.logu(1e-18, 1e-12) * s,
            _ => ctx.logu(1e-10, 1.0) * s,
        };
        scale = 4.0 * f64::EPSILON;
    }
    // exact arithmetic survives about 30 halvings of these numbers
    let cap = if exact { 36 } else { 120 };
    let ans = if ctx.chance(1, 2) {
        Ans::Script
    } else {
        Ans::Threshold(match ctx.pick(6) {
            0 => lo0,
            1 => hi0,
            2 => hi0 + (hi0 - lo0) + 1.0,
            3 => lo0 - (hi0 - lo0) - 1.0,
            _ => lo0 + (hi0 - lo0) * ctx.unit(),
        })
    };
    let noisy = ctx.chance(1, 3);
    let flips: Vec<bool> = (0..cap)
        .map(|_| match ans {
            Ans::Script => ctx.chance(1, 2),
            _ => noisy && ctx.chance(1, 6),
        })
        .collect();
    if noisy && matches!(ans, Ans::Threshold(_)) {
        ctx.fault("answers flipped at random");
    }
    let mut iv = (lo0, hi0);
    let segs = match ctx.pick(3) {
        0 => ctx.range(2, 4),
        _ => 1,
    };
    let mut p = Probe { ans, flips, panic_at: None, k: 0, log: Vec::new(), limit: 4 * cap };
    ctx.sym(exact as u64);
    for seg in 0..segs {
        let room = cap - p.k.min(cap);
        let budget = match ctx.pick(5) {
            0 => 0,
            1 => ctx.range(0, 3),
            _ => ctx.range(0, cap),
        }
        .min(room);
        p.panic_at = if ctx.chance(1, 6) && budget > 0 { Some(p.k + ctx.idx(budget)) } else { None };
        let from = p.log.len();
        let start = iv;
        let opt = if ctx.chance(1, 4) { Options { max_iters: budget, tolerance: tol, verbose: true } } else { Options::new(budget, tol) };
        let r = guarded(|| bsearch(&mut p, &mut iv, &opt));
        let seen = p.log[from..].to_vec();
        ctx.steps += seen.len() as u64;
        ctx.nontrivial |= !seen.is_empty();
        ev!(ctx, "call {seg}: interval {start:?}, tolerance {tol:e}, budget {budget}, panic {:?} -> {r:?}, interval {iv:?}, probes {:?}", p.panic_at, &seen[..seen.len().min(12)]);
        if seg > 0 {
            ctx.cover("resumed from a returned interval");
        }
        let (mut l, mut u) = start;
        let mut brackets = vec![start];
        let mut any = false;
        let mut blurred = false;
        for (i, (g, a)) in seen.iter().enumerate() {
            let mid = l + (u - l) / 2.0;
            let slack = scale * l.abs().max(u.abs());
            let half = (u - l) / 2.0;
            ensure!(ctx, i < budget, "bisection makes probe {i} although the budget is {budget}");
            ensure!(ctx, half >= tol - slack,
                "bisection probes {g} although half the bracket ({l}, {u}) is already below the tolerance {tol:e}");
            ensure!(ctx, (g - mid).abs() <= slack, "bisection probes {g} instead of the midpoint {mid} of the bracket ({l}, {u}) implied by the answers (probe {i})");
            ensure!(ctx, *g >= l - slack && *g <= u + slack, "bisection probes {g} outside the bracket ({l}, {u})");
            if *a {
                any = true;
                blurred |= *g == start.1;
                u = *g;
            } else {
                l = *g;
            }
            brackets.push((l, u));
            ctx.sym(*a as u64);
        }
        match r {
            Some((flag, n)) => {
                ctx.sym(77);
                ensure!(ctx, n == seen.len(), "bisection reports {n} probes after making {}", seen.len());
                let slack = scale * l.abs().max(u.abs());
                ensure!(ctx, n == budget || (u - l) / 2.0 < tol + slack,
                    "bisection stops after {n} of {budget} probes although half the bracket ({l}, {u}) is not below the tolerance {tol:e}");
                ensure!(ctx, blurred || flag == any, "bisection reports success = {flag} but the answers were {:?}", seen);
                ensure!(ctx, iv == (l, u), "bisection hands back the interval {iv:?}; the answers establish the bracket ({l}, {u})");
                if n == budget {
                    ctx.cover("ended by the budget");
                } else {
                    ctx.cover("ended by the tolerance");
                }
            }
            None => {
                ctx.fault("probe panic");
                ensure!(ctx, iv.0 <= iv.1, "after a panic in a probe the interval {iv:?} is not ordered");
                ensure!(ctx, brackets.contains(&iv), "after a panic in a probe the interval {iv:?} is not a bracket established by the answers so far");
                p.panic_at = None;
            }
        }
        if let (Ans::Threshold(t), false) = (ans, noisy) {
            // soundness of the bracket for a monotone oracle
            ensure!(ctx, iv.1 == hi0 || iv.1 >= t, "upper end {} was never found feasible (threshold {t})", iv.1);
            ensure!(ctx, iv.0 == lo0 || iv.0 < t, "lower end {} was never found infeasible (threshold {t})", iv.0);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C09

#[derive(Clone, Debug, PartialEq)]
enum LEv {
    Update(u64),
    Query(Vec<u64>, bool),
}

/// Feasible at level t: a_i.(x - z) <= s_i * t for all i (t < 0 is infeasible when the a_i span).
#[derive(Clone)]
struct Leveled {
    a: Vec<V>,
    s: V,
    z: V,
    two_sided: bool,
    deep: bool,
    level: f64,
    cursor: usize,
    calls: usize,
    /// at these oracle calls: 0 panic, 1 a cut nothing satisfies, 2 a cut without direction
    faults: Vec<(usize, u8)>,
    update_panics: Vec<usize>,
    updates: usize,
    log: Vec<LEv>,
}

impl OracleFeas<Arr> for Leveled {
    type CutChoice = AnyCut;
    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, AnyCut)> {
        let k = self.calls;
        self.calls += 1;
        if self.log.len() > 2_000_000 {
            panic!("the search makes more queries than its budget");
        }
        let xs = x.data();
        if let Some((_, f)) = self.faults.iter().find(|f| f.0 == k).copied() {
            if f == 0 {
                panic_any(Injected);
            }
            self.log.push(LEv::Query(bits(xs), false));
            return Some(if f == 1 {
                (arr(&self.a[0]), AnyCut::Single(1e12))
            } else {
                (arr(&vec![0.0; xs.len()]), AnyCut::Single(0.0))
            });
        }
        let d = sub(xs, &self.z);
        for _ in 0..self.a.len() {
            self.cursor = (self.cursor + 1) % self.a.len();
            let i = self.cursor;
            let v = dot(&self.a[i], &d);
            let f = v - self.s[i] * self.level;
            if f > 0.0 {
                self.log.push(LEv::Query(bits(xs), false));
                let b = if self.deep { f } else { 0.0 };
                let cut = if self.two_sided { AnyCut::Par(b, Some(f + 2.0 * self.s[i] * (self.level.abs() + 1.0))) } else { AnyCut::Single(b) };
                return Some((arr(&self.a[i]), cut));
            }
        }
        self.log.push(LEv::Query(bits(xs), true));
        None
    }
    fn update(&mut self, gamma: f64) {
        let k = self.updates;
        self.updates += 1;
        self.log.push(LEv::Update(gamma.to_bits()));
        if self.update_panics.contains(&k) {
            panic_any(Injected);
        }
        self.level = gamma;
    }
}

fn same_region(a: &Sp, b: &Sp, dirs: &[V]) -> bool {
    a.fingerprint(dirs) == b.fingerprint(dirs) && a.measure().to_bits() == b.measure().to_bits()
}

fn c09(ctx: &mut Ctx) -> Outcome {
    let n = ctx.size(2, 6, 24);
    let (init, c) = gen_init(ctx, n);
    let which = ctx.idx(4);
    let mut sp = init.make(which, &c);
    let r0 = sp.region();
    let l0 = r0.p.chol().ok_or("harness: region")?;
    // a point inside the region around which the feasible sets shrink with the level
    let uv = ctx.unit_vec(n);
    let frac = ctx.uni(0.0, 0.8);
    let z = axpy(&r0.c, frac, &l0.mv(&uv));
    let m = ctx.range(2, 2 * n + 1);
    let size = r0.tau(&ctx.unit_vec(n));
    let a: Vec<V> = (0..m).map(|_| gen_grad(ctx, n, &[])).collect();
    let s: V = a.iter().map(|g| norm(g) * size).collect();
    let nf = if ctx.chance(1, 2) { ctx.range(1, 4) } else { 0 };
    let faults: Vec<(usize, u8)> = (0..nf).map(|_| (ctx.idx(60), ctx.pick(3) as u8)).collect();
    let update_panics = if ctx.chance(1, 6) { vec![ctx.idx(6)] } else { vec![] };
    let om = Leveled {
        a, s, z, two_sided: ctx.chance(1, 3), deep: ctx.chance(2, 3), level: f64::NAN, cursor: 0,
        calls: 0, faults: faults.clone(), update_panics, updates: 0, log: Vec::new(),
    };
    // sometimes the region has a history
    for _ in 0..ctx.idx(3) {
        let q = gen_cut(ctx, n, &[]).fit(&sp);
        let tau = sp.half_sq(&q.g).sqrt();
        sp.apply(q.kind, &q.g, &q.cut(tau));
    }
    let max = match ctx.pick(5) {
        0 => ctx.range(0, 3),
        1 => ctx.range(4, 12),
        _ if ctx.chance(1, 150) => ctx.range(1000, 20_000),
        _ => ctx.size(20, 60, 600),
    };
    let tol = if ctx.chance(1, 5) { ctx.logu(1e-6, 10.0) * size * size } else { 1e-20 };
    let verbose = ctx.chance(1, 4);
    let dirs: Vec<V> = (0..3).map(|_| ctx.unit_vec(n)).collect();
    let mut ad = BSearchAdaptor::new(om, sp, if verbose { Options { max_iters: max, tolerance: tol, verbose } } else { Options::new(max, tol) });
    ctx.sym(which as u64 * 10 + n as u64);
    ev!(ctx, "adaptor over a {} region of dimension {n}, {m} constraints, budget {max}, tolerance {tol:e}, faults {faults:?}", ad.space.name());

    struct Watch<'a> {
        ad: &'a mut BSearchAdaptor<AnyCut, Leveled, Sp>,
        dirs: &'a [V],
        max: usize,
        tol: f64,
        problem: Option<String>,
        accepted: Option<(f64, Vec<u64>)>,
        probes: Vec<(f64, Option<bool>, usize)>,
    }
    impl Watch<'_> {
        fn probe(&mut self, g: f64) -> Option<bool> {
            if self.probes.len() > 1000 {
                panic!("bisection makes more probes than its budget");
            }
            let before = self.ad.space.clone();
            let from = self.ad.omega.log.len();
            let mut om = self.ad.omega.clone();
            let mut priv_sp = before.clone();
            let want = guarded(|| {
                om.update(g);
                ref_feas(&mut om, &mut priv_sp, self.max, self.tol).0
            });
            let got = guarded(|| self.ad.assess_bs(g));
            let queries = self.ad.omega.log.len() - from;
            self.probes.push((g, got, queries));
            let fail = |s: String| Some(s);
            let p = if om.log != self.ad.omega.log {
                let i = om.log.iter().zip(&self.ad.omega.log).take_while(|(a, b)| a == b).count();
                fail(format!(
                    "probe at level {g}: the oracle calls depart from \"set the level, then search from a copy of the region\" at call {}: expected {:?}, got {:?}",
                    i - from.min(i), om.log.get(i), self.ad.omega.log.get(i)))
            } else {
                match (&want, got) {
                    (None, None) => (!same_region(&before, &self.ad.space, self.dirs))
                        .then(|| format!("probe at level {g}: the oracle panicked midway and the adaptor's region changed")),
                    (Some(None), Some(false)) => (!same_region(&before, &self.ad.space, self.dirs))
                        .then(|| format!("probe at level {g} failed and the adaptor's region changed")),
                    (Some(Some(x)), Some(true)) => {
                        let mut exp = before.clone();
                        exp.recenter(x.data());
                        self.accepted = Some((g, bits(x.data())));
                        if bits(&self.ad.space.center()) != bits(x.data()) {
                            fail(format!("probe at level {g} succeeded at {:?} but the adaptor's centre is {:?}", x.data(), self.ad.space.center()))
                        } else {
                            (!same_region(&exp, &self.ad.space, self.dirs))
                                .then(|| format!("probe at level {g} succeeded and changed more than the centre of the adaptor's region"))
                        }
                    }
                    (w, g2) => fail(format!("probe at level {g} answered {g2:?} although its search {}", match w {
                        None => "panicked",
                        Some(None) => "found no feasible centre",
                        Some(Some(_)) => "found a feasible centre",
                    })),
                }
            };
            let o = &self.ad.options;
            let p = p.or_else(|| (o.max_iters != self.max || o.tolerance.to_bits() != self.tol.to_bits())
                .then(|| format!("probe at level {g}: the adaptor's options became a budget of {} and a tolerance of {:e}", o.max_iters, o.tolerance)));
            if self.problem.is_none() {
                self.problem = p;
            }
            got
        }
    }
    impl OracleBS for Watch<'_> {
        fn assess_bs(&mut self, g: f64) -> bool {
            match self.probe(g) {
                Some(b) => b,
                None => panic_any(Injected),
            }
        }
    }
    let mut w = Watch { ad: &mut ad, dirs: &dirs, max, tol, problem: None, accepted: None, probes: Vec::new() };
    let bis = ctx.chance(1, 2);
    let mut flag = None;
    let mut iv = (if ctx.chance(1, 2) { 0.0 } else { -0.5 }, ctx.uni(0.2, 2.0));
    if bis {
        let opt = Options { max_iters: ctx.size(1, 14, 80), tolerance: ctx.logu(1e-4, 1e-1), verbose: false };
        let mut tries = 0;
        loop {
            let hi = iv.1;
            w.accepted = None;
            let r = guarded(|| bsearch(&mut w, &mut iv, &opt));
            match r {
                Some((f, _)) => {
                    flag = Some((f, hi));
                    break;
                }
                None => {
                    tries += 1;
                    if tries > 4 {
                        break;
                    }
                }
            }
        }
    } else {
        for _ in 0..ctx.range(1, 7) {
            let g = match ctx.pick(5) {
                0 => -ctx.unit(),
                1 => 0.0,
                2 => ctx.logu(1e-3, 1e-1),
                _ => ctx.uni(0.0, 1.5),
            };
            w.probe(g);
        }
    }
    let (problem, accepted, probes) = (w.problem.take(), w.accepted.take(), std::mem::take(&mut w.probes));
    for (g, a, q) in &probes {
        ev!(ctx, "probe at level {g}: {} after {q} oracle calls", match a { None => "panic", Some(true) => "yes", Some(false) => "no" });
        ctx.steps += *q as u64;
        ctx.nontrivial |= *q > 1;
        ctx.sym(a.map_or(2, |x| x as u64));
        ctx.sym(*q as u64);
        match a {
            None => ctx.fault("oracle panic during a probe"),
            Some(true) => ctx.cover("probe answered yes"),
            Some(false) => ctx.cover("probe answered no"),
        }
        ctx.checks += 3;
    }
    for f in &faults {
        if f.1 > 0 && f.0 < ad.omega.calls {
            ctx.fault(if f.1 == 1 { "spurious infeasible cut" } else { "reply without direction" });
        }
    }
    if let Some(p) = problem {
        return Err(p);
    }
    if let Some((f, hi0)) = flag {
        ctx.cover("complete bisections");
        if f {
            let Some((lv, x)) = accepted else {
                return Err("bisection reports success although no probe was answered yes".into());
            };
            ensure!(ctx, lv == iv.1, "after a successful bisection the reported upper end is {} but the last accepted level was {lv}", iv.1);
            ensure!(ctx, bits(&ad.space.center()) == x, "after a successful bisection the adaptor's centre is not the point accepted at the upper end");
            // independent acceptance at the reported upper end
            let d = sub(&ad.space.center(), &ad.omega.z);
            let worst = (0..ad.omega.a.len()).map(|i| dot(&ad.omega.a[i], &d) - ad.omega.s[i] * iv.1).fold(f64::MIN, f64::max);
            ensure!(ctx, worst <= 0.0, "after a successful bisection the centre violates a constraint at the reported upper end by {worst:e}");
        } else {
            ensure!(ctx, iv.1 == hi0 && accepted.is_none(), "bisection reports failure but moved the upper end from {hi0} to {}", iv.1);
        }
    }
    Ok(())
}

pub const C08: Prop = Prop {
    id: "C08", run: c08, quick: 20000000, thorough: 300000000,
    rule: "one run = one bracket, tolerance and answer source, bisected in one or several calls with budgets and panic points drawn from the seed; non-trivial when at least one probe was made; distinct by the answer sequence and the way each call ended",
    measure: "hash of the answer sequence, arithmetic mode and call boundaries",
    real: "bsearch", stub: "the probe oracle (threshold, scripted or flipped answers, panics)",
    assumptions: &["finite brackets with lower end not above the upper end", "away from exactly representable brackets midpoints may differ by rounding (4 ulp of the larger end)", "whether a yes at the original upper end itself counts as success is left open"],
};
pub const C09: Prop = Prop {
    id: "C09", run: c09, quick: 2400000, thorough: 20000000,
    rule: "one run = one region, level oracle and sequence of probes (direct or through bisection), with panics, spurious cuts and budget exhaustion injected; non-trivial when some probe made a query; distinct by answers and query counts",
    measure: "hash of region kind, dimension, probe answers, query counts and faults",
    real: "BSearchAdaptor, bsearch, cutting_plane_feas, Ell, EllStable, EllCalc", stub: "the level oracle; a user-written space in a quarter of the runs",
    assumptions: &["regions of dimension 2 to 6"],
};
