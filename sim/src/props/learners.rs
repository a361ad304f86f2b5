//! C22: classifier and maximum-cut oracles judged reply by reply over arbitrary query histories with
//! interleaved instances, poisoned queries and panics, and liveness of the classifier search.
use super::bisect::guarded;
use super::Prop;
use crate::ctx::{Ctx, Outcome};
use crate::la::*;
use crate::problems::*;
use crate::run::Injected;
use crate::spaces::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

const EPS: f64 = 1e-12;

struct Inst {
    spec: Spec,
    o: Orc,
    last: V,
    /// parameters with every margin at least one, and the radius of a ball of such parameters
    known: Option<(V, f64)>,
    u: f64,
}

fn gen_svm(ctx: &mut Ctx) -> Inst {
    let nf = ctx.size(1, 4, 30);
    let rows = if ctx.chance(1, 5) { ctx.range(9, 40) } else { ctx.size(1, 8, 300) };
    // unit of the samples, a power of two; the offset stays in units of one
    let u = if ctx.chance(1, 4) { 2f64.powi(ctx.range(0, 40) as i32 - 20) } else { 1.0 };
    let integral = ctx.chance(1, 3);
    let mut data: V = (0..rows * nf)
        .map(|_| if integral { ctx.range(0, 6) as f64 - 3.0 } else { ctx.uni(-3.0, 3.0) })
        .collect();
    let mut lab = Vec::new();
    let mut known = None;
    if ctx.chance(2, 3) {
        let dir = ctx.unit_vec(nf);
        let b = ctx.uni(-1.0, 1.0);
        let gap = ctx.logu(0.02, 1.0);
        for i in 0..rows {
            let row = &mut data[i * nf..(i + 1) * nf];
            let v = dot(row, &dir) + b;
            let y = if v >= 0.0 { 1.0 } else { -1.0 };
            if v * y < gap {
                // push the sample away from the separating plane
                let d = gap * 1.01 * y - v;
                for (r, w) in row.iter_mut().zip(&dir) {
                    *r += d * w;
                }
            }
            lab.push(y as i32);
        }
        let mut w = dir;
        w.push(b);
        let m = |i: usize| lab[i] as f64 * (dot(&data[i * nf..(i + 1) * nf], &w[..nf]) + b);
        let worst = (0..rows).map(m).fold(f64::INFINITY, f64::min);
        let rho = (0..rows)
            .map(|i| m(i) / (1.0 + dot(&data[i * nf..(i + 1) * nf], &data[i * nf..(i + 1) * nf])).sqrt())
            .fold(f64::INFINITY, f64::min);
        let s = 2.0 / worst;
        known = Some((scale(&w, s), 0.5 * s * rho * (1.0 - 1e-9)));
    } else {
        for _ in 0..rows {
            lab.push(if ctx.chance(1, 2) { -1 } else { 1 });
        }
    }
    if u != 1.0 {
        data = scale(&data, u);
        if let Some((w, _)) = &mut known {
            for v in &mut w[..nf] {
                *v /= u;
            }
        }
    }
    let spec = Spec::Svm { rows, nf, data, lab };
    let o = spec.build();
    Inst { o, last: vec![0.0; nf + 1], known, spec, u }
}

fn gen_cut_problem(ctx: &mut Ctx) -> Inst {
    let n = if ctx.chance(1, 6) { ctx.range(7, 14) } else { ctx.size(1, 6, 80) };
    let u = if ctx.chance(1, 4) { 2f64.powi(ctx.range(0, 80) as i32 - 40) } else { 1.0 };
    let (neg, integral) = (ctx.chance(1, 5), ctx.chance(1, 3));
    let mut w = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..i {
            let v = if ctx.chance(1, 4) { 0.0 } else if integral { ctx.range(1, 5) as f64 } else { ctx.uni(0.1, 5.0) };
            let v = if neg && ctx.chance(1, 3) { -v } else { v } * u;
            w[i * n + j] = v;
            w[j * n + i] = v;
        }
        // self-loops never belong to a cut
        if ctx.chance(1, 6) {
            w[i * n + i] = u * ctx.uni(-2.0, 2.0);
        }
    }
    let spec = Spec::Maxcut { n, w };
    let o = spec.build();
    Inst { o, last: vec![0.0; n], known: None, spec, u }
}

fn gen_query(ctx: &mut Ctx, p: &Inst) -> V {
    let n = p.last.len();
    let v: V = match ctx.pick(6) {
        0 => vec![0.0; n],
        1 => p.last.clone(),
        2 => (0..n).map(|_| [-1.0, 0.0, 1.0, -0.0, 1e-300, -1e-300][ctx.idx(6)]).collect(),
        3 => {
            let s = ctx.logu(1e-6, 1e6);
            (0..n).map(|_| s * ctx.normal()).collect()
        }
        4 => {
            let mut v = p.last.clone();
            let i = ctx.idx(n);
            v[i] = -v[i];
            v
        }
        _ => (0..n).map(|_| ctx.normal()).collect(),
    };
    let Some((w, r)) = &p.known else { return v };
    let mut q = match ctx.pick(4) {
        0 => return v,
        1 => w.clone(),
        2 => {
            let d = ctx.unit_vec(n);
            let k = ctx.logu(1e-3, 1e2) * r;
            let mut q = w.clone();
            for i in 0..n {
                q[i] += k * d[i] / if i + 1 < n { p.u } else { 1.0 };
            }
            q
        }
        _ => {
            let k = ctx.uni(0.0, 1.5);
            scale(w, k)
        }
    };
    if ctx.chance(1, 3) {
        // scale so that the worst margin is just above or just below one
        let m = judge_svm(&p.spec, &q).iter().map(|x| x.0).fold(f64::INFINITY, f64::min);
        if m > 1e-3 {
            q = scale(&q, (1.0 + ctx.normal() * ctx.logu(1e-9, 1e-2)) / m);
        }
    }
    q
}

/// margin and rounding scale of every sample
fn judge_svm(s: &Spec, x: &[f64]) -> Vec<(f64, f64)> {
    let Spec::Svm { rows, nf, data, lab } = s else { unreachable!() };
    (0..*rows)
        .map(|i| {
            let d = &data[i * nf..(i + 1) * nf];
            let t: V = d.iter().zip(x).map(|(a, b)| a * b).chain([x[*nf]]).collect();
            (lab[i] as f64 * t.iter().sum::<f64>(), t.iter().map(|v| v.abs()).sum::<f64>())
        })
        .collect()
}

fn close(a: &[f64], b: &[f64]) -> bool {
    let s = a.iter().chain(b).map(|v| v.abs()).fold(0.0, f64::max);
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= EPS * s)
}

/// judge one reply to the query x at best value g0
fn check(ctx: &mut Ctx, what: &str, s: &Spec, x: &[f64], g0: f64, r: &((Arr, AnyCut), bool), g: f64) -> Outcome {
    let ((grad, cut), better) = r;
    let grad = vec_of(grad);
    let AnyCut::Single(off) = cut else { return Err("harness: offset".into()) };
    match s {
        Spec::Svm { nf, data, lab, .. } => {
            let m = judge_svm(s, x);
            let sc = 1.0 + m.iter().map(|v| v.1).fold(0.0, f64::max);
            let min = m.iter().map(|v| v.0).fold(f64::INFINITY, f64::min);
            ensure!(ctx, *better, "{what}: the classifier oracle reports no new point");
            let sep = g == 0.0 && grad.iter().all(|v| *v == 0.0) && *off == 0.0;
            if min > 1.0 + EPS * sc {
                ensure!(ctx, sep, "{what}: every sample has margin {min} or more, reply is gradient {grad:?}, offset {off}, best value {g}");
                ctx.cover("separated queries");
                return Ok(());
            }
            if min >= 1.0 - EPS * sc && sep {
                ctx.checks += 1;
                return Ok(());
            }
            ensure!(ctx, (g - min).abs() <= EPS * sc, "{what}: best value {g}, worst margin {min}");
            let hit = m.iter().enumerate().any(|(i, v)| {
                let want: V = data[i * nf..(i + 1) * nf].iter().map(|d| -(lab[i] as f64) * d).chain([-(lab[i] as f64)]).collect();
                v.0 <= min + 2.0 * EPS * sc && close(&grad, &want)
            });
            ensure!(ctx, hit, "{what}: gradient {grad:?} does not belong to a sample of worst margin {min} (margins {:?})", m.iter().map(|v| v.0).collect::<V>());
            ctx.cover("unseparated queries");
        }
        Spec::Maxcut { n, w } => {
            let up: Vec<bool> = x.iter().map(|v| *v >= 0.0).collect();
            let (mut val, mut sc) = (0.0, 0.0);
            let mut want = vec![0.0; *n];
            for i in 0..*n {
                for j in 0..*n {
                    if up[i] != up[j] {
                        want[i] -= 2.0 * w[i * n + j];
                        sc += w[i * n + j].abs();
                        if i < j {
                            val += w[i * n + j];
                        }
                    }
                }
            }
            if *better {
                ensure!(ctx, val > g0 - EPS * sc, "{what}: improvement reported over {g0} although the partition is worth {val}");
                ensure!(ctx, (g - val).abs() <= EPS * sc, "{what}: best value set to {g}, the partition is worth {val}");
                ctx.cover("improving partitions");
            } else {
                ensure!(ctx, val <= g0 + EPS * sc, "{what}: the partition is worth {val}, more than {g0}, but no improvement was reported");
                ensure!(ctx, g.to_bits() == g0.to_bits(), "{what}: best value changed from {g0} to {g} without an improvement");
                ctx.cover("no better partitions");
            }
            let ok = grad.len() == *n && grad.iter().zip(&want).all(|(a, b)| (a - b).abs() <= 4.0 * EPS * sc);
            ensure!(ctx, ok, "{what}: direction {grad:?}, the weights in the cut give {want:?}");
        }
        _ => unreachable!(),
    }
    Ok(())
}

struct W<'a> {
    p: &'a mut Inst,
    ctx: &'a mut Ctx,
    bad: Option<String>,
    /// panic at this query, after the inner oracle answered if `late`
    panic_at: usize,
    late: bool,
    k: usize,
    done: Option<V>,
    after: usize,
}

impl OracleOptim<Arr> for W<'_> {
    type CutChoice = AnyCut;
    fn assess_optim(&mut self, x: &Arr, g: &mut f64) -> ((Arr, AnyCut), bool) {
        if self.k > 100_000 {
            panic!("a solver session makes far more queries than its budget");
        }
        if self.done.is_some() {
            self.after += 1;
        }
        if self.k == self.panic_at && !self.late {
            panic_any(Injected);
        }
        self.k += 1;
        let g0 = *g;
        let r = self.p.o.optim(x, g);
        let what = format!("{} inside a solver run, query {}", self.p.spec.name(), self.k);
        if let Err(e) = check(self.ctx, &what, &self.p.spec, x.data(), g0, &r, *g) {
            self.bad.get_or_insert(e);
        }
        self.p.last = vec_of(x);
        if self.panic_at != usize::MAX && self.k == self.panic_at + 1 && self.late {
            panic_any(Injected);
        }
        if r.0 .0.data().iter().all(|v| *v == 0.0) && matches!(self.p.spec, Spec::Svm { .. }) {
            self.done = Some(vec_of(x));
        }
        r
    }
}

/// a search for a separating classifier: cancelled, panicking, moved to clones, within the volume bound
fn search(ctx: &mut Ctx, p: &mut Inst, s: usize) -> Outcome {
    let (w, r) = p.known.clone().unwrap();
    let n = w.len();
    let off = ctx.logu(1e-2, 2.0);
    let dir = ctx.unit_vec(n);
    // in coordinates where the samples have unit one; the region is stretched to the real ones
    let mut v = w.clone();
    v[..n - 1].iter_mut().for_each(|x| *x *= p.u);
    let reach = r + off * norm(&v) * ctx.uni(1.0, 3.0) + norm(&v) * ctx.uni(0.0, 1.0);
    let c0 = axpy(&v, (reach - r) * 0.999, &dir);
    let mut c = c0;
    c[..n - 1].iter_mut().for_each(|x| *x /= p.u);
    let mut d = vec![reach * reach / (p.u * p.u); n];
    d[n - 1] = reach * reach;
    let init = if p.u == 1.0 && ctx.chance(1, 2) { Init::Scalar(reach * reach) } else { Init::Diag(d) };
    let which = ctx.idx(4);
    let mut sp = init.make(which, &c);
    let bound = (2.0 * (n as f64 + 1.0) * n as f64 * (reach / r).ln()).max(0.0).floor() as usize + 1;
    let mut g = f64::NEG_INFINITY;
    let mut cuts = 0;
    let mut calls = 0;
    ev!(ctx, "{s}: search for a classifier in dimension {n}, radius {reach}, ball {r}, bound {bound}");
    loop {
        calls += 1;
        let budget = if ctx.chance(1, 3) { ctx.range(0, 12) } else { bound + 2 };
        let panic_at = if calls < 12 && ctx.chance(1, 5) { ctx.idx(20) } else { usize::MAX };
        if ctx.chance(1, 6) {
            sp = sp.clone();
            ctx.fault("restored from a clone");
        }
        let late = ctx.chance(1, 2);
        let mut o = W { p, ctx, bad: None, panic_at, late, k: 0, done: None, after: 0 };
        let res = guarded(|| cutting_plane_optim(&mut o, &mut sp, &mut g, &Options { max_iters: budget, tolerance: 0.0, verbose: false }));
        let (bad, k, done, after) = (o.bad.take(), o.k, o.done.take(), o.after);
        ctx.steps += k as u64;
        if let Some(b) = bad {
            return Err(b);
        }
        ensure!(ctx, after == 0, "classifier search: {after} more queries after a separating classifier was found");
        if let Some((x, it)) = res {
            if let Some(d) = done {
                let x = x.map(|a| vec_of(&a));
                ensure!(ctx, x.as_ref().map(|v| bits(v)) == Some(bits(&d)), "classifier search: found {d:?}, returned {x:?}");
                ensure!(ctx, g == 0.0, "classifier search: separated, best value {g}");
                ensure!(ctx, cuts + it <= bound, "classifier search: separated after {} cuts, the bound is {bound}", cuts + it);
                ctx.cover("classifier found within the bound");
                ctx.nontrivial = true;
                return Ok(());
            }
            ensure!(ctx, it == budget, "classifier search stopped by itself after {it} of {budget} cuts (and {cuts} before) without a classifier, though one exists");
            cuts += it;
            if budget < bound + 2 {
                ctx.fault("cancelled and resumed");
            }
        } else {
            ctx.fault("oracle panic");
            cuts += if late { k - 1 } else { k };
        }
        ensure!(ctx, cuts <= bound, "classifier search: {cuts} cuts without a classifier, the bound is {bound}");
        if calls > 3000 {
            return Err("classifier search: no progress".into());
        }
    }
}

fn c22(ctx: &mut Ctx) -> Outcome {
    let k = ctx.range(1, 3);
    let mut ps: Vec<Inst> = (0..k).map(|_| if ctx.chance(1, 2) { gen_cut_problem(ctx) } else { gen_svm(ctx) }).collect();
    for p in &ps {
        ev!(ctx, "{} {:?}", p.spec.name(), p.spec);
        ctx.sym(crate::ctx::hash_str(p.spec.name()) + p.last.len() as u64);
    }
    let steps = if ctx.chance(1, 300) { ctx.range(100, 3000) } else { ctx.range(1, if ctx.deep { 40 } else { 20 }) };
    for s in 0..steps {
        let i = ctx.idx(k);
        let op = ctx.pick(12);
        let mut x = gen_query(ctx, &ps[i]);
        ctx.steps += 1;
        ctx.sym(op * 4 + i as u64);
        let p = &mut ps[i];
        let val = {
            let n = p.last.len();
            match &p.spec {
                Spec::Maxcut { w, .. } => (0..n * n).filter(|q| (x[q / n] >= 0.0) != (x[q % n] >= 0.0)).map(|q| w[q] / 2.0).sum(),
                _ => 1.0,
            }
        };
        let g0 = match ctx.pick(5) {
            0 => f64::NEG_INFINITY,
            1 => val * (1.0 + ctx.normal() * ctx.logu(1e-9, 1e-2)),
            2 => val,
            3 => p.u * ctx.uni(0.0, 20.0),
            _ => val * ctx.uni(0.0, 1.0),
        };
        let what = format!("{} query {s} to oracle {i}", p.spec.name());
        match op {
            0 => {
                ctx.fault("poisoned query");
                let q = ctx.idx(x.len());
                x[q] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300][ctx.idx(4)];
                let mut g = g0;
                if catch_unwind(AssertUnwindSafe(|| p.o.optim(&arr(&x), &mut g))).is_err() {
                    ctx.fault("poisoned query ended in a panic");
                }
                ev!(ctx, "{s}: oracle {i} poisoned");
            }
            1 if p.known.is_some() => search(ctx, p, s)?,
            _ => {
                let mut g = g0;
                let r = p.o.optim(&arr(&x), &mut g);
                ev!(ctx, "{s}: oracle {i} asked {x:?} at {g0} -> {:?} {:?} {} best value {g}", vec_of(&r.0 .0), r.0 .1, r.1);
                check(ctx, &what, &p.spec, &x, g0, &r, g)?;
                // earlier queries play no part
                let mut h = g0;
                let f = p.spec.build().optim(&arr(&x), &mut h);
                ensure!(ctx, bits(f.0 .0.data()) == bits(r.0 .0.data()) && cut_bits(&f.0 .1) == cut_bits(&r.0 .1) && f.1 == r.1 && bits(&[h]) == bits(&[g]),
                    "{what}: a new oracle for the same problem answers differently ({:?} {:?} {h} instead of {:?} {:?} {g})", vec_of(&f.0 .0), f.0 .1, vec_of(&r.0 .0), r.0 .1);
                p.last = x;
                ctx.nontrivial = true;
            }
        }
    }
    Ok(())
}

pub const C22: Prop = Prop {
    id: "C22", run: c22, quick: 2000000, thorough: 60000000,
    rule: "one run = up to three classifier / maximum-cut oracles receiving an interleaved history of direct, repeated, boundary, poisoned and solver-made queries with cancellations and panics, every reply judged from the data alone and compared with a new oracle; non-trivial when a reply was judged; distinct by problem kinds, operations and faults",
    measure: "hash of problem kinds and sizes, operation and oracle per step, and faults",
    real: "SvmOracle, MaxcutOracle, cutting_plane_optim, Ell, EllStable, EllCalc", stub: "user-written ellipsoid in one search of four",
    assumptions: &["labels are 1 or -1, weights symmetric", "ties within 1e-12 of the rounding scale left open", "liveness on data with a ball of separating parameters inside the region"],
};
