//! C20: power iteration cancelled and resumed from the vector it left behind, and conjugate gradient
//! restarted from earlier, stale and exact answers.
use super::Prop;
use crate::ctx::{Ctx, Outcome};
use crate::la::*;
use crate::spaces::*;
use ellalgo_rs::conjugate_gradient::conjugate_gradient;
use ellalgo_rs::power_iteration::*;

fn norm1(v: &[f64]) -> f64 {
    v.iter().map(|x| x.abs()).sum()
}

/// symmetric matrix with the given eigenvalues and a random eigenbasis; also the first eigenvector
fn with_spectrum(ctx: &mut Ctx, w: &[f64]) -> (Mat, V) {
    let n = w.len();
    let seeds: Vec<V> = (0..n).map(|_| ctx.vec_normal(n)).collect();
    let a = ctx.unit_vec(n);
    let q = if n == 1 { vec![vec![1.0]] } else { basis_from(&a, &seeds) };
    let mut m = Mat::zero(n);
    for (e, v) in w.iter().zip(&q) {
        for i in 0..n {
            for j in 0..=i {
                m.a[i * n + j] += e * v[i] * v[j];
            }
        }
    }
    for i in 0..n {
        for j in 0..i {
            let v = m.at(i, j);
            m.set(j, i, v);
        }
    }
    (m, q[0].clone())
}

fn power(ctx: &mut Ctx) -> Outcome {
    let n = if ctx.chance(1, 8) { ctx.range(7, 20) } else { ctx.size(1, 6, 60) };
    let variant = ctx.range(1, 4);
    // largest eigenvalue (in magnitude) first
    let u = match ctx.pick(4) {
        0 => 1.0,
        1 => ctx.logu(1e-3, 1.0),
        2 => ctx.logu(1e-30, 1e30),
        _ => ctx.logu(0.5, 20.0),
    };
    let ratio = ctx.uni(0.05, 0.97);
    let sign = if ctx.chance(1, 3) { -1.0 } else { 1.0 };
    let mut w = vec![sign * u];
    let flat = ctx.chance(1, 12);
    for _ in 1..n {
        let s = if ctx.chance(1, 2) { -1.0 } else { 1.0 };
        w.push(if flat { sign * u } else { s * u * ratio * ctx.uni(0.0, 1.0) });
    }
    let (a, v1) = with_spectrum(ctx, &w);
    let am = mat_arr(&a);
    let mut x: V = ctx.vec_normal(n);
    let c1 = dot(&x, &v1).abs() / norm(&x).max(1e-300);
    if !flat && c1 < 0.05 || norm(&x) < 1e-3 {
        x = v1.iter().zip(ctx.unit_vec(n)).map(|(a, b)| a + 0.5 * b).collect();
    }
    let by_value = variant == 2 || variant == 3;
    let tol = match ctx.pick(4) {
        0 => 0.0,
        1 => ctx.logu(1e-14, 1e-9),
        _ => ctx.logu(1e-9, 1e-1),
    } * if by_value { u } else { 1.0 };
    // where rounding makes "converged at this iterate" undecidable
    let blur = if by_value { 1e-13 * u * n as f64 } else { 1e-12 * n as f64 };
    ev!(ctx, "power iteration variant {variant}, dimension {n}, eigenvalues {w:?}, tolerance {tol:e}");
    ctx.sym(variant as u64 * 64 + n as u64);
    let mut saved = x.clone();
    let segs = ctx.range(1, 6);
    for sg in 0..segs {
        if sg > 0 {
            match ctx.pick(6) {
                0 => {
                    // a crash: only the checkpoint survives
                    ctx.fault("resumed from a stale checkpoint");
                    x = saved.clone();
                }
                1 => {
                    ctx.fault("vector rescaled between segments");
                    let s = ctx.logu(1e-40, 1e40);
                    let k = norm(&x);
                    x = scale(&x, s / k);
                }
                2 => {
                    saved = x.clone();
                    ctx.fault("resumed");
                }
                _ => ctx.fault("resumed"),
            }
        }
        let budget = match ctx.pick(4) {
            0 => ctx.range(0, 3),
            1 => ctx.range(60, 400),
            _ => ctx.range(3, 60),
        };
        let opt = Options { max_iters: budget, tolerance: tol };
        let mut y = arr(&x);
        let (val, it) = match variant {
            1 => power_iteration(&am, &mut y, &opt),
            2 => power_iteration2(&am, &mut y, &opt),
            3 => power_iteration3(&am, &mut y, &opt),
            _ => power_iteration4(&am, &mut y, &opt),
        };
        let y = vec_of(&y);
        let what = format!("power iteration variant {variant}, segment {sg}, budget {budget}");
        ev!(ctx, "segment {sg}: budget {budget} -> value {val}, count {it}, vector {y:?}");
        ensure!(ctx, it <= budget, "{what}: {it} iterations counted");
        ensure!(ctx, y.len() == n && y.iter().all(|v| v.is_finite()) && val.is_finite(), "{what}: value {val}, vector {y:?}");
        let converged = it < budget;
        let made = if converged { it + 1 } else { budget };
        // the sequence of iterates from where this segment started
        let unit = |v: &[f64]| scale(v, 1.0 / norm(v));
        let as_seen = |v: &[f64]| if variant == 4 { scale(v, 1.0 / norm1(v)) } else { v.to_vec() };
        let mut v = unit(&x);
        let mut lam = a.quad(&v);
        let mut near = false;
        for k in 1..=made {
            let t = unit(&a.mv(&v));
            let l = a.quad(&t);
            let d = if by_value {
                (l - lam).abs()
            } else {
                let (p, q) = (as_seen(&t), as_seen(&v));
                norm1(&sub(&p, &q)).min(norm1(&axpy(&p, 1.0, &q)))
            };
            let last = converged && k == made;
            if last {
                ensure!(ctx, d <= tol * (1.0 + 1e-9) + blur, "{what}: stopped after {it} although consecutive iterates differ by {d:e}, tolerance {tol:e}");
            } else {
                ensure!(ctx, d >= tol * (1.0 - 1e-9) - blur, "{what}: went on although iterate {k} differs from the one before by {d:e} only, tolerance {tol:e}");
            }
            near |= (d - tol).abs() <= blur;
            v = t;
            lam = l;
            ctx.steps += 1;
        }
        let _ = near;
        let yn = norm(&y);
        if converged || variant != 3 {
            ensure!(ctx, (yn - 1.0).abs() <= 1e-12, "{what}: the vector has length {yn}");
        }
        let e = sub(&scale(&y, 1.0 / yn), &v).iter().map(|d| d.abs()).fold(0.0, f64::max);
        ensure!(ctx, e <= 1e-9, "{what}: after {made} multiplications the vector is {y:?}, the iteration is at {v:?}");
        let ray = a.quad(&y) / (yn * yn);
        ensure!(ctx, (val - ray).abs() <= 1e-11 * u * n as f64, "{what}: value {val} reported, the vector's quotient is {ray}");
        ctx.nontrivial |= made > 0;
        ctx.sym(made as u64);
        if converged {
            ctx.cover("power iteration converged");
            if tol <= 1e-9 * if by_value { u } else { 1.0 } && !by_value {
                // the gap of the spectrum bounds the distance to the dominant pair
                let err = (val - w[0]).abs();
                ensure!(ctx, err <= 1e-6 * u, "{what}: converged to {val}, the dominant eigenvalue is {}", w[0]);
            }
        } else {
            ctx.fault("cancelled by its budget");
        }
        x = y;
    }
    Ok(())
}

/// Steps of the textbook iteration until the residual is below the tolerance, when rounding cannot
/// change that number and it is small.
fn cg_count(a: &Mat, b: &[f64], x0: &[f64], tol: f64, kap: f64) -> Option<usize> {
    let mut r = sub(b, &a.mv(x0));
    let blur = 1e-9 * kap * (norm(&r) + norm(b));
    let mut p = r.clone();
    let mut rr = dot(&r, &r);
    for k in 0..=10 {
        let d = rr.sqrt();
        if (d - tol).abs() <= blur {
            return None;
        }
        if d < tol {
            return Some(k);
        }
        let ap = a.mv(&p);
        let al = rr / dot(&p, &ap);
        r = axpy(&r, -al, &ap);
        let new = dot(&r, &r);
        p = axpy(&r, new / rr, &p);
        rr = new;
    }
    None
}

/// The same for longer runs, where rounding moves the number a little: it is taken from several
/// executions whose residuals are disturbed by far more than rounding does (which can only delay
/// them), and the caller allows two more steps.
fn cg_long_count(a: &Mat, b: &[f64], x0: &[f64], tol: f64) -> Option<usize> {
    let mut count = None;
    let mut lcg = 1u64; // not from the tape: a minimised tape must not weaken the disturbance
    for _ in 0..4 {
        let mut r = sub(b, &a.mv(x0));
        let noise = 1e-13 * (norm(&r) + norm(b));
        if tol < 1e5 * noise * (b.len() as f64).sqrt() {
            return None; // too close to what the disturbance reaches
        }
        let mut p = r.clone();
        let mut rr = dot(&r, &r);
        let mut k = 0;
        while rr.sqrt() >= tol {
            if k == 80 {
                return None;
            }
            let ap = a.mv(&p);
            let al = rr / dot(&p, &ap);
            r = axpy(&r, -al, &ap);
            for v in r.iter_mut() {
                lcg = lcg.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                *v += noise * ((lcg >> 33) as f64 / (1u64 << 30) as f64 - 1.0);
            }
            let new = dot(&r, &r);
            p = axpy(&r, new / rr, &p);
            rr = new;
            k += 1;
        }
        count = count.max(Some(k));
    }
    count
}

fn gradient(ctx: &mut Ctx) -> Outcome {
    let n = if ctx.chance(1, 6) { ctx.range(9, 32) } else { ctx.size(1, 8, 60) };
    let integral = ctx.chance(1, 4);
    let u = if ctx.chance(1, 3) { 2f64.powi(ctx.range(0, 160) as i32 - 80) } else { 1.0 };
    let kappa = if n > 8 && ctx.chance(1, 2) { ctx.uni(20.0, 100.0) } else { ctx.logu(1.0, 1e4) };
    let a = if integral {
        // diagonally dominant integers: products with small integers are exact
        let mut m = Mat::zero(n);
        for i in 0..n {
            for j in 0..i {
                let v = ctx.range(0, 4) as f64 - 2.0;
                m.set(i, j, v);
                m.set(j, i, v);
            }
            m.set(i, i, 2.0 * n as f64 + ctx.range(1, 6) as f64);
        }
        m
    } else {
        let w: V = (0..n).map(|_| ctx.logu(1.0, kappa)).collect();
        with_spectrum(ctx, &w).0
    };
    let a = a.scaled(u);
    let (w, _) = a.eig();
    let hi = w.iter().cloned().fold(f64::MIN, f64::max);
    let lo = w.iter().cloned().fold(f64::MAX, f64::min);
    let kap = hi / lo;
    let s = if ctx.chance(1, 4) { 2f64.powi(ctx.range(0, 60) as i32 - 30) } else { 1.0 };
    let sol: V = match ctx.pick(5) {
        0 => vec![0.0; n],
        _ if integral => (0..n).map(|_| s * (ctx.range(0, 20) as f64 - 10.0)).collect(),
        _ => (0..n).map(|_| s * ctx.normal()).collect(),
    };
    let b = a.mv(&sol);
    let (am, bm) = (mat_arr(&a), arr(&b));
    let q = (kap.sqrt() - 1.0) / (kap.sqrt() + 1.0);
    let mut store: Vec<V> = Vec::new();
    let calls = ctx.range(1, 6);
    ev!(ctx, "conjugate gradient, dimension {n}, condition {kap}, right-hand side {b:?}, solution {sol:?}");
    ctx.sym(1000 + n as u64);
    for call in 0..calls {
        let x0: Option<V> = match ctx.pick(7) {
            0 => None,
            1 | 2 if !store.is_empty() => {
                ctx.fault("restarted from an earlier answer");
                let i = ctx.idx(store.len());
                Some(store[i].clone())
            }
            3 => {
                ctx.fault("restarted from the exact answer");
                Some(sol.clone())
            }
            4 => Some(vec![0.0; n]),
            _ => {
                ctx.fault("restarted from an unrelated point");
                let k = s * ctx.logu(1e-6, 1e3);
                Some((0..n).map(|_| k * ctx.normal()).collect())
            }
        };
        let start = x0.clone().unwrap_or(vec![0.0; n]);
        let r0 = norm(&sub(&b, &a.mv(&start)));
        // what rounding lets anybody reach
        let floor = 1e-13 * n as f64 * (hi * (norm(&sol) * kap.sqrt() + norm(&start)) + norm(&b)) + 1e-290;
        let tol = floor * ctx.logu(1e3, 1e12);
        let need = if r0 <= tol || q <= 0.0 { 1.0 } else { ((2.0 * kap.sqrt() * r0 / tol).ln() / (1.0 / q).ln()).max(0.0) };
        let enough = (2.0 * need).ceil() as usize + n + 6;
        let budget = match ctx.pick(4) {
            0 => ctx.range(0, 3),
            1 => ctx.range(0, enough),
            2 => ctx.range(0, 2 * n + 4),
            _ => enough + ctx.range(0, 50),
        };
        // well-conditioned systems: the iteration at which the tolerance is first met is known exactly
        let exact = if kap <= 100.0 { cg_count(&a, &b, &start, tol, kap) } else { None };
        let long = if kap <= 100.0 && exact.is_none() && tol >= 1e4 * floor { cg_long_count(&a, &b, &start, tol) } else { None };
        let r = conjugate_gradient(&am, &bm, x0.as_ref().map(|v| arr(v)).as_ref(), tol, budget);
        let what = format!("conjugate gradient, call {call} (starting residual {r0:e}, tolerance {tol:e}, budget {budget})");
        ev!(ctx, "{what} -> {:?}", r.as_ref().map(vec_of));
        ctx.steps += 1;
        ctx.sym(r.is_ok() as u64 * 2 + x0.is_some() as u64);
        if let Some(k) = exact {
            ctx.cover("systems whose iteration count is known exactly");
            ensure!(ctx, r.is_ok() == (budget >= k), "{what}: {} although the iteration meets the tolerance at step {k}", if r.is_ok() { "an answer" } else { "an error" });
        }
        if let Some(k) = long {
            ctx.cover("longer systems whose iteration count is bounded by disturbed executions");
            ensure!(ctx, r.is_ok() || budget < k + 2, "{what}: an error although the iteration meets the tolerance at step {k} or so even when disturbed");
        }
        match r {
            Ok(x) => {
                let x = vec_of(&x);
                let res = norm(&sub(&b, &a.mv(&x)));
                ensure!(ctx, x.len() == n && res <= 1.001 * tol, "{what}: the answer {x:?} has residual {res:e}");
                if budget == 0 {
                    ensure!(ctx, r0 <= 1.001 * tol, "{what}: answered without iterating");
                }
                ctx.cover("systems solved");
                if store.len() < 6 {
                    store.push(x);
                }
            }
            Err(m) => {
                ensure!(ctx, budget < enough && r0 > 0.999 * tol, "{what}: \"{m}\" although {} {}", if r0 <= 0.999 * tol { "the starting point is already within tolerance; iterations needed:" } else { "the budget suffices; iterations needed:" }, need.ceil());
                ctx.fault("cancelled by its budget");
            }
        }
        ctx.nontrivial = true;
    }
    Ok(())
}

fn c20(ctx: &mut Ctx) -> Outcome {
    if ctx.chance(1, 2) {
        gradient(ctx)
    } else {
        power(ctx)
    }
}

pub const C20: Prop = Prop {
    id: "C20", run: c20, quick: 2000000, thorough: 60000000,
    rule: "one run = one power iteration driven through up to six segments (cancelled by its budget, resumed from the vector left behind, from a stale checkpoint or from a rescaled vector), or one linear system solved up to six times by conjugate gradient from earlier, exact, unrelated and default starting points under varying budgets; every answer judged against the sequence of iterates or the residual; non-trivial when an iteration was made; distinct by variant, dimension, segment lengths and faults",
    measure: "hash of routine, dimension, multiplications per segment, outcomes and faults",
    real: "power_iteration (four variants), conjugate_gradient, Arr", stub: "none",
    assumptions: &["symmetric matrices; dominant eigenvalue separated by 3 percent or all equal; condition at most 1e4 for linear systems", "stopping decisions within rounding of the tolerance left open", "tolerances at least a thousand times the rounding floor for linear systems"],
};
