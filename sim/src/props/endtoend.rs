//! C18: bundled oracles under the real drivers and regions, cancelled, resumed, panicking and
//! re-used; every returned point re-evaluated from the problem data alone.
use super::bisect::guarded;
use super::oracles::gen_filter;
use super::Prop;
use crate::ctx::{Ctx, Outcome};
use crate::la::*;
use crate::problems::*;
use crate::refs::*;
use crate::run::Injected;
use crate::spaces::*;
use std::panic::panic_any;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

const NEVER: usize = usize::MAX;

/// objective sense: the best value only grows (1), only falls (-1), or follows the query (0)
fn sense(s: &Spec) -> i32 {
    match s {
        Spec::Lowpass { .. } => -1,
        Spec::Svm { .. } => 0,
        _ => 1,
    }
}

fn cut_value(n: usize, w: &[f64], x: &[f64]) -> f64 {
    let side: Vec<bool> = x.iter().map(|v| *v >= 0.0).collect();
    let mut s = 0.0;
    for i in 0..n {
        for j in 0..i {
            if side[i] != side[j] {
                s += w[i * n + j];
            }
        }
    }
    s
}

fn worst_margin(rows: usize, nf: usize, data: &[f64], lab: &[i32], x: &[f64]) -> f64 {
    (0..rows).map(|i| lab[i] as f64 * (dot(&data[i * nf..(i + 1) * nf], &x[..nf]) + x[nf])).fold(f64::INFINITY, f64::min)
}

/// objective at x, its rounding scale, and the largest constraint violation over its tolerance
/// (constraints that only say "at least as good as the best value" left out)
fn evaluate(s: &Spec, x: &[f64]) -> (f64, f64, Option<String>, bool) {
    match s {
        Spec::Maxcut { n, w } => (cut_value(*n, w, x), w.iter().map(|v| v.abs()).sum::<f64>() + 1.0, None, true),
        Spec::Svm { rows, nf, data, lab } => {
            let m = worst_margin(*rows, *nf, data, lab, x);
            (m, 1.0 + 4.0 * x.iter().map(|v| v.abs()).sum::<f64>(), None, true)
        }
        _ => {
            let level = if matches!(s, Spec::Lowpass { .. }) { f64::INFINITY } else { 0.0 };
            let j = judge(s, x, level);
            let tol = j.tol();
            let is_level = |n: &str| n == "profit level" || n == "ratio level" || n.starts_with("stop-band upper");
            let bad = j.cons.iter().find(|c| !is_level(&c.name) && c.f > tol).map(|c| format!("\"{}\" violated by {:e}", c.name, c.f));
            let clear = j.cons.iter().all(|c| is_level(&c.name) || c.f < -tol);
            let b = j.better.unwrap();
            (b.gamma, b.gscale, bad, clear)
        }
    }
}

fn gen_case(ctx: &mut Ctx) -> Job {
    if ctx.chance(1, 4) {
        let f = gen_filter(ctx);
        let n = f.base.len();
        let spec = f.spec();
        let r = ctx.logu(1e-2, 4.0) * f.u * f.u;
        let noise = ctx.logu(1e-4, 0.5) * r.sqrt() / (n as f64).sqrt();
        let c: V = f.base.iter().map(|v| v + noise * ctx.normal()).collect();
        let drv = if ctx.chance(1, 4) { Drv::Feas } else { Drv::Optim };
        let which = ctx.idx(4);
        return Job { spec, init: Init::Scalar(r), c, which, drv, max: 0, tol: 1e-20 * f.u * f.u, verbose: ctx.chance(1, 8) };
    }
    loop {
        let mut j = gen_job(ctx, true);
        if let Spec::Lowpass { n, wp, ws, .. } = &mut j.spec {
            if !clean_edge(*n, *wp) || !clean_edge(*n, *ws) {
                *wp = (1.0 + 0.5) / (15 * *n - 1) as f64;
                *ws = (5.0 + 0.5) / (15 * *n - 1) as f64;
            }
        }
        match j.spec {
            Spec::Lp(_) | Spec::Lmi(_) | Spec::LmiOld(_) => {
                if ctx.tape.rec.len() > 50_000 {
                    j.spec = Spec::Quasi;
                    j.c = vec![0.0, 0.0];
                    j.init = Init::Scalar(10.0);
                    j.drv = Drv::Optim;
                    return j;
                }
            }
            _ => return j,
        }
    }
}

fn c18(ctx: &mut Ctx) -> Outcome {
    let mut job = gen_case(ctx);
    let spec = job.spec.clone();
    let n = job.c.len();
    ctx.sym(crate::ctx::hash_str(spec.name()));
    ctx.sym(n as u64 * 8 + job.which as u64);
    ev!(ctx, "{}: {:?}", job.describe(), spec);
    let panic_at = Arc::new(AtomicUsize::new(NEVER));
    let pa = panic_at.clone();
    let mut o = Traced::new(spec.build(), Box::new(move |k| {
        if pa.load(Ordering::SeqCst) == k {
            pa.store(NEVER, Ordering::SeqCst);
            panic_any(Injected);
        }
    }));
    let sessions = ctx.range(1, 3);
    for se in 0..sessions {
        if se > 0 {
            ctx.fault("oracle re-used by another session");
            if ctx.chance(1, 2) {
                job.which = ctx.idx(4);
            }
            if ctx.chance(1, 2) {
                let u = if let Spec::Lowpass { up, .. } = &spec { 0.1 * up } else { 0.1 };
                job.c = job.c.iter().map(|v| v + u * ctx.normal()).collect();
            }
            if matches!(spec, Spec::Lowpass { .. }) {
                job.drv = if ctx.chance(1, 4) { Drv::Feas } else { Drv::Optim };
            }
        }
        let mut sp = job.space();
        let mut g = spec.gamma0();
        if sense(&spec) == 1 && g == 0.0 && ctx.chance(1, 5) {
            g = ctx.logu(1e-3, 10.0);
        }
        let segs = ctx.range(1, 4);
        let mut level = g;
        let mut over = false;
        for sg in 0..segs {
            if over {
                break;
            }
            let budget = match ctx.pick(5) {
                0 => ctx.range(0, 3),
                1 => ctx.range(40, 150),
                _ => ctx.size(3, 40, 600),
            };
            if sg > 0 {
                ctx.fault("cancelled and resumed");
            }
            if ctx.chance(1, 6) && budget > 0 {
                panic_at.store(o.log.len() + ctx.idx(budget), Ordering::SeqCst);
            }
            if ctx.chance(1, 5) {
                ctx.fault("restored from a clone");
                sp = sp.clone();
            }
            if let (Orc::Lowpass(f), Drv::Feas) = (&mut o.o, job.drv) {
                f.sp_sq = spec.gamma0();
                level = f.sp_sq;
            }
            let from = o.log.len();
            let g0 = g;
            let r = guarded(|| job.drive(&mut o, &mut sp, &mut g, budget));
            panic_at.store(NEVER, Ordering::SeqCst);
            ctx.steps += (o.log.len() - from) as u64;
            ctx.sym((o.log.len() - from) as u64);
            let what = format!("{} (session {se}, segment {sg}, budget {budget})", spec.name());
            ev!(ctx, "session {se} segment {sg}: budget {budget}, {} queries, best value {g0} -> {g}, result {:?}", o.log.len() - from, r.as_ref().map(|x| (x.0.as_ref().map(vec_of), x.1)));
            // the best value as the queries saw it
            if job.drv != Drv::Feas {
                let seen: V = o.log[from..].iter().map(|q| f64::from_bits(q.1)).chain([g]).collect();
                let sn = sense(&spec);
                for (i, w) in seen.windows(2).enumerate() {
                    let fall = match sn {
                        1 => w[0] - w[1],
                        -1 => w[1] - w[0],
                        _ => 0.0,
                    };
                    if fall > 0.0 {
                        // an improvement decided in log space may be worse by rounding
                        let x: V = o.log[from + i].0.iter().map(|b| f64::from_bits(*b)).collect();
                        let sc = evaluate(&spec, &x).1;
                        ensure!(ctx, fall <= 10.0 * TOL * sc, "{what}: the best value went from {} to {}", w[0], w[1]);
                    }
                    ctx.checks += 1;
                }
                if sn != 0 && job.drv == Drv::Optim {
                    // nothing better was looked at
                    for q in &o.log[from..from + (o.better.len() - from).min(o.log.len() - from)] {
                        let x: V = q.0.iter().map(|b| f64::from_bits(*b)).collect();
                        if x.iter().any(|v| !v.is_finite() || v.abs() > 50.0) {
                            continue;
                        }
                        let (obj, sc, _, clear) = evaluate(&spec, &x);
                        if clear && obj.is_finite() {
                            let lead = if sn == 1 { obj - g } else { g - obj };
                            ensure!(ctx, lead <= 100.0 * TOL * sc, "{what}: the run asked about the feasible point {x:?} with objective {obj}, better than its best value {g}");
                        }
                    }
                }
            }
            let Some((x, it)) = r else {
                ctx.fault("oracle panic");
                continue;
            };
            // the driver ended the search by itself: its region is exhausted, nothing to resume
            over = it != budget;
            let Some(x) = x else {
                if job.drv != Drv::Feas && o.log.len() == o.better.len() {
                    ensure!(ctx, bits(&[g]) == bits(&[g0]), "{what}: no point returned but the best value changed from {g0} to {g}");
                }
                continue;
            };
            let x = vec_of(&x);
            ctx.nontrivial = true;
            ctx.cover(match spec {
                Spec::Profit { .. } => "returned points: profit",
                Spec::ProfitRb { .. } => "returned points: robust profit",
                Spec::ProfitQ { .. } => "returned points: discrete profit",
                Spec::Quasi => "returned points: quasi-convex",
                Spec::Lowpass { .. } => "returned points: filter",
                Spec::Maxcut { .. } => "returned points: maximum cut",
                _ => "returned points: classifier",
            });
            ensure!(ctx, x.len() == n && x.iter().all(|v| v.is_finite()), "{what}: returned point {x:?}");
            let (obj, sc, bad, _) = evaluate(&spec, &x);
            ensure!(ctx, bad.is_none(), "{what}: the returned point {x:?} is infeasible: {}", bad.unwrap());
            if job.drv == Drv::Feas {
                ensure!(ctx, obj <= level + 10.0 * TOL * sc, "{what}: the returned point has response {obj} above the level {level}");
                continue;
            }
            if let Spec::ProfitQ { .. } = spec {
                for v in &x {
                    let e = v.exp();
                    ensure!(ctx, e.round() >= 1.0 && (e - e.round()).abs() <= 1e-9 * e, "{what}: the returned quantity {e} is not a positive integer");
                }
            }
            let mut want = obj;
            if let Spec::Svm { rows, nf, data, lab } = &spec {
                let lastq: V = o.log.last().unwrap().0.iter().map(|b| f64::from_bits(*b)).collect();
                ensure!(ctx, bits(&lastq) == bits(&x), "{what}: the returned point is not the latest query");
                let m = worst_margin(*rows, *nf, data, lab, &lastq);
                if (m - 1.0).abs() <= TOL * sc {
                    continue;
                }
                want = if m > 1.0 { 0.0 } else { m };
            }
            ensure!(ctx, (g - want).abs() <= 10.0 * TOL * sc, "{what}: best value {g} handed back with the point {x:?}, whose objective is {want}");
        }
    }
    Ok(())
}

pub const C18: Prop = Prop {
    id: "C18", run: c18, quick: 120000, thorough: 8000000,
    rule: "one run = one bundled problem whose oracle serves one to three solver sessions of up to four segments each (cancelled, resumed, panicking, restored from clones) on any region implementation; every returned point and best value re-evaluated; non-trivial when a point was returned; distinct by problem kind, size, region, segment lengths and faults",
    measure: "hash of problem kind, dimension, region implementation, queries per segment and faults",
    real: "all bundled optimisation oracles, all drivers, Ell, EllStable, EllCalc", stub: "user-written ellipsoid in one run of four",
    assumptions: &["problem data in the documented domains", "comparisons within 1e-8 of the objective's rounding scale", "best-seen comparison skips queries beyond magnitude 50 in log space"],
};
