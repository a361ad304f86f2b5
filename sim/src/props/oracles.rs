//! C14, C15: bundled oracles judged reply by reply against direct evaluation, over arbitrary query
//! histories with interleaved instances, poisoned queries, solver-made queries and panics.
use super::bisect::guarded;
use super::Prop;
use crate::ctx::{Ctx, Outcome};
use crate::la::*;
use crate::problems::*;
use crate::refs::*;
use crate::run::Injected;
use crate::spaces::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::oracles::lowpass_oracle::LowpassOracle;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

struct Reply {
    g: V,
    cut: AnyCut,
    better: bool,
    before: f64,
    after: f64,
}

fn show(c: &AnyCut) -> String {
    format!("{c:?}")
}

/// judge one reply; `shift` is added to every expected offset (candidate minus query, discrete case)
fn check_reply(ctx: &mut Ctx, what: &str, j: &Judged, r: &Reply, at: &[f64], query: &[f64]) -> Outcome {
    let d = sub(at, query);
    let moved = |g: &[f64], c: &AnyCut| -> AnyCut {
        let s = dot(g, &d);
        match c {
            AnyCut::Single(b) => AnyCut::Single(b + s),
            AnyCut::Par(a, b) => AnyCut::Par(a + s, b.map(|v| v + s)),
        }
    };
    let dn = norm(&d);
    if r.better {
        if let Some(c) = j.definitely_violated() {
            ctx.checks += 1;
            return Err(format!("{what}: improvement/acceptance reported although the constraint \"{}\" is violated by {:e}", c.name, c.f));
        }
        let b = j.better.as_ref().ok_or("harness: no objective")?;
        ensure!(ctx, (r.after - b.gamma).abs() <= 10.0 * TOL * b.gscale, "{what}: best value set to {} but the objective at the judged point is {}", r.after, b.gamma);
        let ok = b.cuts.iter().any(|(g, c)| same_cut(&r.g, &r.cut, g, &moved(g, c), j.scale + norm(g) * dn));
        ensure!(ctx, ok, "{what}: the cut returned with an improvement has gradient {:?} and offset {}; expected {:?} with {}", r.g, show(&r.cut), b.cuts[0].0, show(&moved(&b.cuts[0].0, &b.cuts[0].1)));
        ctx.cover("improving replies");
    } else {
        ensure!(ctx, !j.clearly_fine(), "{what}: a cut was returned although every constraint holds (largest value {:e})", j.cons.iter().map(|c| c.f).fold(f64::MIN, f64::max));
        ensure!(ctx, r.after.to_bits() == r.before.to_bits(), "{what}: best value changed from {} to {} without an improvement", r.before, r.after);
        let t = j.tol();
        let hit = j.cons.iter().find(|c| c.f > -t && same_cut(&r.g, &r.cut, &c.g, &moved(&c.g, &c.cut), j.scale + norm(&c.g) * dn));
        if hit.is_none() {
            ctx.checks += 1;
            let near = j.cons.iter().filter(|c| c.f > -t).map(|c| format!("\"{}\" (value {:e}, gradient {:?}, offset {})", c.name, c.f, c.g, show(&moved(&c.g, &c.cut)))).take(3).collect::<Vec<_>>();
            return Err(format!("{what}: the cut with gradient {:?} and offset {} is not the linearisation of a violated constraint; violated are {}", r.g, show(&r.cut), near.join("; ")));
        }
        ctx.checks += 1;
        ctx.cover("rejecting replies");
    }
    Ok(())
}

// ------------------------------------------------------------------ C14

pub struct Filt {
    n: usize,
    wp: f64,
    ws: f64,
    lp: f64,
    up: f64,
    level: f64,
    gr: Grid,
    o: LowpassOracle,
    pub base: V,
    last: V,
    /// unit of the responses, a power of two
    pub u: f64,
}

impl Filt {
    pub fn spec(&self) -> Spec {
        Spec::Lowpass { n: self.n, wp: self.wp, ws: self.ws, lp: self.lp, up: self.up, sp: self.level }
    }
}

pub fn gen_filter(ctx: &mut Ctx) -> Filt {
    let n = match ctx.pick(8) {
        0 => 2,
        1 => ctx.range(8, 14),
        _ => ctx.size(2, 7, 48),
    };
    let (mut wp, mut ws);
    loop {
        wp = ctx.uni(0.0, 0.5);
        ws = wp + ctx.uni(0.0, 0.49);
        if !clean_edge(n, wp) {
            wp = (15.0 * wp).floor() / 15.0 + 0.33 / (15 * n - 1) as f64;
        }
        if !clean_edge(n, ws) {
            ws = wp + 3.0 / (15 * n - 1) as f64;
        }
        if clean_edge(n, wp) && clean_edge(n, ws) && ws < 0.99 {
            break;
        }
        if ctx.tape.rec.len() > 100_000 {
            wp = 0.121;
            ws = 0.203;
            break;
        }
    }
    let gr = grid(n, wp, ws);
    // autocorrelation of a filter: a non-negative response by construction
    let h: V = (0..n).map(|i| ctx.normal() * if ctx.chance(1, 2) { 0.3 } else { 0.1 } + 1.0 / (1.0 + i as f64)).collect();
    let mut base: V = (0..n).map(|k| (0..n - k).map(|i| h[i] * h[i + k]).sum()).collect();
    let vals: V = gr.rows.iter().map(|r| dot(r, &base)).collect();
    let pmax = vals[..gr.np].iter().cloned().fold(f64::MIN, f64::max).max(1e-3);
    base = scale(&base, 1.0 / pmax);
    let vals: V = vals.iter().map(|v| v / pmax).collect();
    let pmin = vals[..gr.np].iter().cloned().fold(f64::MAX, f64::min);
    let smax = vals[gr.ns..].iter().cloned().fold(f64::MIN, f64::max).max(1e-6);
    let m = ctx.logu(1e-4, 0.5);
    let (lp, up) = (pmin - m, 1.0 + m);
    let level = smax * (1.0 + ctx.logu(1e-3, 1.0));
    let u = if ctx.chance(1, 3) { 2f64.powi(ctx.range(0, 100) as i32 - 50) } else { 1.0 };
    let (lp, up, level, base) = (lp * u, up * u, level * u, scale(&base, u));
    let o = LowpassOracle::new(n, wp, ws, lp, up, level);
    Filt { u, n, wp, ws, lp, up, level, gr, o, last: base.clone(), base }
}

fn gen_query(ctx: &mut Ctx, f: &Filt) -> V {
    let n = f.n;
    match ctx.pick(9) {
        0 => f.base.clone(),
        1 => f.last.clone(),
        2 => vec![0.0; n],
        3 => (0..n).map(|_| f.u * ctx.normal()).collect(),
        4 => {
            // touch a single frequency
            let i = ctx.idx(f.gr.rows.len());
            let s = f.u * ctx.normal() * ctx.logu(1e-7, 1.0);
            axpy(&f.base, s / n as f64, &f.gr.rows[i])
        }
        5 => {
            let mut v = f.base.clone();
            v[0] = -v[0];
            v
        }
        6 => {
            let u = ctx.unit_vec(n);
            axpy(&f.base, f.u * ctx.logu(1e-6, 1e-1), &u)
        }
        7 => scale(&f.base, ctx.uni(0.5, 1.5)),
        _ => {
            let mut v = f.base.clone();
            v[0] += f.u * ctx.normal() * 0.2;
            v
        }
    }
}

fn poison(ctx: &mut Ctx, v: &mut V) {
    let i = ctx.idx(v.len());
    v[i] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300][ctx.idx(4)];
    if ctx.chance(1, 3) {
        v.iter_mut().for_each(|x| *x = f64::NAN);
    }
}

fn c14(ctx: &mut Ctx) -> Outcome {
    let k = ctx.range(1, 3);
    let mut fs: Vec<Filt> = (0..k).map(|_| gen_filter(ctx)).collect();
    let steps = if ctx.chance(1, 300) { ctx.range(100, 1200) } else { ctx.range(1, if ctx.deep { 60 } else { 25 }) };
    for f in &fs {
        ev!(ctx, "filter of size {}, {} pass, {} stop frequencies, levels {} {} {}", f.n, f.gr.np, f.gr.rows.len() - f.gr.ns, f.lp, f.up, f.level);
        ctx.sym(f.n as u64);
    }
    for s in 0..steps {
        let i = ctx.idx(k);
        let op = ctx.pick(10);
        let f = &fs[i];
        let x = gen_query(ctx, f);
        ctx.steps += 1;
        ctx.sym(op * 4 + i as u64);
        match op {
            0 => {
                // poisoned query: whatever it answers, it must not matter later
                let mut x = x;
                poison(ctx, &mut x);
                ctx.fault("poisoned query");
                let mut g = if ctx.chance(1, 3) { f64::NAN } else { f.level };
                let opt = ctx.chance(1, 2);
                let f = &mut fs[i];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if opt {
                        f.o.assess_optim(&arr(&x), &mut g);
                    } else {
                        f.o.assess_feas(&arr(&x));
                    }
                }));
                if r.is_err() {
                    ctx.fault("poisoned query ended in a panic");
                }
                f.o.sp_sq = f.level;
                ev!(ctx, "{s}: oracle {i} poisoned");
            }
            1..=4 => {
                if ctx.chance(1, 4) {
                    let nl = fs[i].level * ctx.uni(0.3, 2.0);
                    fs[i].level = nl;
                }
                let f = &mut fs[i];
                f.o.sp_sq = f.level;
                let r = f.o.assess_feas(&arr(&x));
                let j = judge_lowpass(&f.gr, f.lp, f.up, f.level, &x);
                let what = format!("filter oracle of size {}, query {s}", f.n);
                ev!(ctx, "{s}: oracle {i} feasibility query -> {}", if r.is_some() { "cut" } else { "accepted" });
                ctx.nontrivial = true;
                match r {
                    None => {
                        if let Some(c) = j.definitely_violated() {
                            return Err(format!("{what}: accepted although \"{}\" is violated by {:e}", c.name, c.f));
                        }
                        ctx.checks += 1;
                        ctx.cover("accepting replies");
                        let b = j.better.as_ref().unwrap();
                        let k = f.o.kmax;
                        ensure!(ctx, (f.o.fmax - b.gamma).abs() <= 10.0 * TOL * b.gscale, "{what}: published peak response {} but the stop band peaks at {}", f.o.fmax, b.gamma);
                        ensure!(ctx, k >= f.gr.ns as i32 && (k as usize) < f.gr.rows.len() && (dot(&f.gr.rows[k as usize], &x) - b.gamma).abs() <= 10.0 * TOL * b.gscale,
                            "{what}: published peak frequency {k} does not attain the peak response {}", b.gamma);
                    }
                    Some((g, c)) => {
                        let rep = Reply { g: vec_of(&g), cut: AnyCut::Par(c.0, c.1), better: false, before: 0.0, after: 0.0 };
                        check_reply(ctx, &what, &j, &rep, &x, &x)?;
                    }
                }
                fs[i].last = x;
            }
            5..=8 => {
                let g0 = match ctx.pick(3) {
                    0 => fs[i].level,
                    1 => fs[i].level * ctx.uni(0.2, 2.0),
                    _ => {
                        // just above or below the response of this very query
                        let t = (fs[i].gr.ns..fs[i].gr.rows.len()).map(|q| dot(&fs[i].gr.rows[q], &x)).fold(f64::MIN, f64::max);
                        t * (1.0 + ctx.normal() * ctx.logu(1e-8, 1e-2))
                    }
                };
                let f = &mut fs[i];
                let mut g = g0;
                let ((gr, c), better) = f.o.assess_optim(&arr(&x), &mut g);
                let j = judge_lowpass(&f.gr, f.lp, f.up, g0, &x);
                let what = format!("filter oracle of size {}, optimising query {s}", f.n);
                ev!(ctx, "{s}: oracle {i} optimising query at level {g0} -> {} level {g}", if better { "improved" } else { "cut" });
                let rep = Reply { g: vec_of(&gr), cut: AnyCut::Par(c.0, c.1), better, before: g0, after: g };
                check_reply(ctx, &what, &j, &rep, &x, &x)?;
                ctx.nontrivial = true;
                f.last = x;
            }
            _ => {
                // a solver session on this oracle, every reply judged on the way
                struct W<'a> {
                    f: &'a mut Filt,
                    ctx: &'a mut Ctx,
                    bad: Option<String>,
                    panic_at: usize,
                    k: usize,
                }
                impl OracleOptim<Arr> for W<'_> {
                    type CutChoice = AnyCut;
                    fn assess_optim(&mut self, x: &Arr, g: &mut f64) -> ((Arr, AnyCut), bool) {
                        if self.k == self.panic_at {
                            panic_any(Injected);
                        }
                        self.k += 1;
                        let g0 = *g;
                        let ((gr, c), better) = self.f.o.assess_optim(x, g);
                        let j = judge_lowpass(&self.f.gr, self.f.lp, self.f.up, g0, x.data());
                        let rep = Reply { g: vec_of(&gr), cut: AnyCut::Par(c.0, c.1), better, before: g0, after: *g };
                        let what = format!("filter oracle of size {} inside a solver run, query {}", self.f.n, self.k);
                        if let Err(e) = check_reply(self.ctx, &what, &j, &rep, x.data(), x.data()) {
                            self.bad.get_or_insert(e);
                        }
                        self.f.last = vec_of(x);
                        ((gr, AnyCut::Par(c.0, c.1)), better)
                    }
                }
                let which = ctx.idx(2);
                let panic_at = if ctx.chance(1, 4) { ctx.idx(20) } else { usize::MAX };
                let budget = ctx.range(1, 40);
                let f = &mut fs[i];
                let mut sp = Init::Scalar(0.5 * f.u * f.u).make(which, &x);
                let tol = 1e-20 * f.u * f.u;
                let mut g = f.level;
                let mut w = W { f, ctx, bad: None, panic_at, k: 0 };
                let r = guarded(|| cutting_plane_optim(&mut w, &mut sp, &mut g, &Options { max_iters: budget, tolerance: tol, verbose: false }));
                let (bad, q) = (w.bad.take(), w.k);
                if r.is_none() {
                    ctx.fault("session on this oracle panicked");
                }
                ctx.steps += q as u64;
                ev!(ctx, "{s}: solver session of {q} queries on oracle {i}");
                if let Some(b) = bad {
                    return Err(b);
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C15

struct Inst {
    spec: Spec,
    o: Orc,
    gamma: f64,
    last: V,
    /// discrete oracle: candidate fixed by the latest non-retry query that got that far
    cand: Option<V>,
}

fn gen_inst(ctx: &mut Ctx) -> Inst {
    let (par, el, pr) = gen_profit(ctx);
    let spec = match ctx.pick(5) {
        0 => Spec::Profit { par, el, pr },
        1 => {
            let vp = (ctx.uni(0.0, 0.03), ctx.uni(0.0, 0.03), par.0 * ctx.uni(0.0, 0.2), ctx.uni(0.0, 0.4), pr[0] * ctx.uni(0.0, 0.3));
            Spec::ProfitRb { par, el, pr, vp }
        }
        2 | 3 => Spec::ProfitQ { par, el, pr },
        _ => Spec::Quasi,
    };
    Inst { o: spec.build(), spec, gamma: 0.0, last: vec![0.3, 0.4], cand: None }
}

/// magnitude of the objective
fn unit(s: &Spec) -> f64 {
    match s {
        Spec::Profit { par, el, pr } | Spec::ProfitQ { par, el, pr } | Spec::ProfitRb { par, el, pr, .. } => {
            let y = profit_peak(par, el, pr);
            par.0 * par.1 * (el[0] * y[0].min(par.2.ln()) + el[1] * y[1]).exp()
        }
        _ => 1.0,
    }
}

fn query15(ctx: &mut Ctx, s: &Inst) -> V {
    match &s.spec {
        Spec::Quasi => match ctx.pick(5) {
            0 => s.last.clone(),
            1 => {
                let a = ctx.normal();
                vec![a, a * a + ctx.normal() * ctx.logu(1e-8, 0.3)]
            }
            2 => vec![ctx.uni(-3.0, 3.0), ctx.uni(-3.0, 3.0)],
            3 => vec![0.0, 0.0],
            _ => {
                let l = ctx.uni(0.05, 2.0);
                vec![l.sqrt() * ctx.unit(), l]
            }
        },
        Spec::Profit { par, el, pr } | Spec::ProfitQ { par, el, pr } | Spec::ProfitRb { par, el, pr, .. } => {
            let lk = par.2.ln();
            match ctx.pick(8) {
                7 => {
                    let y = profit_peak(par, el, pr);
                    let k = ctx.logu(1e-3, 3.0);
                    vec![y[0].min(lk) + k * ctx.normal(), y[1] + k * ctx.normal()]
                }
                0 => s.last.clone(),
                1 => vec![lk + ctx.normal() * ctx.logu(1e-8, 0.1), ctx.normal()],
                2 => vec![ctx.uni(-8.0, 8.0), ctx.uni(-8.0, 8.0)],
                3 => vec![0.0, 0.0],
                4 => vec![lk * ctx.unit(), -ctx.unit() * 2.0],
                _ => vec![lk * ctx.unit(), ctx.normal()],
            }
        }
        _ => unreachable!(),
    }
}

fn ask(s: &mut Inst, x: &[f64], g: &mut f64, retry: bool) -> (Reply, Option<(V, bool)>) {
    let before = *g;
    match &s.spec {
        Spec::ProfitQ { .. } => {
            let ((gr, c), better, cand, more) = s.o.optim_q(&arr(x), g, retry);
            (Reply { g: vec_of(&gr), cut: c, better, before, after: *g }, Some((vec_of(&cand), more)))
        }
        _ => {
            let ((gr, c), better) = s.o.optim(&arr(x), g);
            (Reply { g: vec_of(&gr), cut: c, better, before, after: *g }, None)
        }
    }
}

/// judge the reply of any of the four oracles
fn judge15(ctx: &mut Ctx, what: &str, s: &mut Inst, x: &[f64], retry: bool, rep: &Reply, extra: Option<(V, bool)>) -> Outcome {
    let g0 = rep.before;
    let Some((cand, more)) = extra else {
        let j = judge(&s.spec, x, g0);
        return check_reply(ctx, what, &j, rep, x, x);
    };
    let mut target = s.cand.clone();
    if !retry {
        let jy = judge(&s.spec, x, g0);
        let at_query = bits(&cand) == bits(x) && !rep.better && check_reply(&mut quiet(), what, &jy, rep, x, x).is_ok();
        if jy.definitely_violated().is_some() {
            check_reply(ctx, what, &jy, rep, x, x)?;
            ensure!(ctx, bits(&cand) == bits(x), "{what}: a query rejected as it stands must come back as the candidate, got {cand:?}");
            ensure!(ctx, more, "{what}: no alternative offered on a fresh query");
            s.cand = None;
            return Ok(());
        }
        if !jy.clearly_fine() && at_query {
            s.cand = None;
            return Ok(());
        }
        // rounding is decided clear of ties only
        if x.iter().any(|v| (v.exp() - v.exp().floor() - 0.5).abs() < 1e-7 + 1e-12 * v.exp()) {
            s.cand = None;
            return Ok(());
        }
        target = Some(rounded(x));
        s.cand = target.clone();
    }
    let Some(t) = target else { return Ok(()) };
    ensure!(ctx, cand.len() == 2 && (0..2).all(|i| (cand[i] - t[i]).abs() <= 1e-12 * (1.0 + t[i].abs())), "{what}: the candidate is {cand:?}; the rounded point is {t:?} (quantities {:?})", t.iter().map(|v| v.exp()).collect::<Vec<_>>());
    ensure!(ctx, more == !retry, "{what}: an alternative is {}offered on a {} query", if more { "" } else { "not " }, if retry { "retry" } else { "fresh" });
    let j = judge(&s.spec, &t, g0);
    check_reply(ctx, what, &j, rep, &t, x)?;
    ctx.cover(if retry { "retries judged" } else { "rounded candidates judged" });
    Ok(())
}

fn quiet() -> Ctx {
    Ctx::new(crate::tape::Tape::replay(vec![]), false, false)
}

fn c15(ctx: &mut Ctx) -> Outcome {
    let k = ctx.range(1, 3);
    let mut v: Vec<Inst> = (0..k).map(|_| gen_inst(ctx)).collect();
    let steps = if ctx.chance(1, 300) { ctx.range(100, 3000) } else { ctx.range(1, if ctx.deep { 80 } else { 30 }) };
    for s in &v {
        ev!(ctx, "oracle: {:?}", s.spec);
        ctx.sym(crate::ctx::hash_str(s.spec.name()));
    }
    for st in 0..steps {
        let i = ctx.idx(k);
        let op = ctx.pick(12);
        ctx.steps += 1;
        ctx.sym(op * 4 + i as u64);
        let x = query15(ctx, &v[i]);
        if op == 0 {
            let mut x = x;
            poison(ctx, &mut x);
            let mut g = if ctx.chance(1, 3) { f64::NAN } else { v[i].gamma };
            let s = &mut v[i];
            let r = catch_unwind(AssertUnwindSafe(|| {
                ask(s, &x, &mut g, false);
            }));
            s.cand = None;
            ctx.fault("poisoned query");
            if r.is_err() {
                ctx.fault("poisoned query ended in a panic");
            }
            ev!(ctx, "{st}: oracle {i} poisoned with {x:?}");
            continue;
        }
        if op == 11 {
            // solver session; every reply judged
            struct W<'a> {
                s: &'a mut Inst,
                ctx: &'a mut Ctx,
                bad: Option<String>,
                panic_at: usize,
                k: usize,
            }
            impl W<'_> {
                fn one(&mut self, x: &Arr, g: &mut f64, retry: bool) -> ((Arr, AnyCut), bool, Arr, bool) {
                    if self.k == self.panic_at {
                        panic_any(Injected);
                    }
                    self.k += 1;
                    let (rep, extra) = ask(self.s, x.data(), g, retry);
                    let what = format!("{} oracle inside a solver run, query {} at {:?} with best value {}{}", self.s.spec.name(), self.k, x.data(), rep.before, if retry { " (retry)" } else { "" });
                    let (cand, more) = extra.clone().unwrap_or((vec_of(x), false));
                    if let Err(e) = judge15(self.ctx, &what, self.s, x.data(), retry, &rep, extra) {
                        self.bad.get_or_insert(e);
                    }
                    ((arr(&rep.g), rep.cut), rep.better, arr(&cand), more)
                }
            }
            impl OracleOptim<Arr> for W<'_> {
                type CutChoice = AnyCut;
                fn assess_optim(&mut self, x: &Arr, g: &mut f64) -> ((Arr, AnyCut), bool) {
                    let r = self.one(x, g, false);
                    (r.0, r.1)
                }
            }
            impl OracleOptimQ<Arr> for W<'_> {
                type CutChoice = AnyCut;
                fn assess_optim_q(&mut self, x: &Arr, g: &mut f64, retry: bool) -> ((Arr, AnyCut), bool, Arr, bool) {
                    self.one(x, g, retry)
                }
            }
            let which = ctx.idx(2);
            let panic_at = if ctx.chance(1, 4) { ctx.idx(20) } else { usize::MAX };
            let opt = Options { max_iters: ctx.range(1, 40), tolerance: 1e-12, verbose: false };
            let q = matches!(v[i].spec, Spec::ProfitQ { .. });
            let c: V = x.iter().map(|a| a.clamp(-2.0, 2.0)).collect();
            let mut sp = Init::Scalar(if matches!(v[i].spec, Spec::Quasi) { 4.0 } else { 30.0 }).make(which, &c);
            let mut g = v[i].gamma;
            let mut w = W { s: &mut v[i], ctx, bad: None, panic_at, k: 0 };
            let r = guarded(|| if q { cutting_plane_optim_q(&mut w, &mut sp, &mut g, &opt) } else { cutting_plane_optim(&mut w, &mut sp, &mut g, &opt) });
            let (bad, n) = (w.bad.take(), w.k);
            v[i].cand = None;
            if r.is_none() {
                ctx.fault("session on this oracle panicked");
            }
            ctx.steps += n as u64;
            ctx.nontrivial |= n > 0;
            ev!(ctx, "{st}: solver session of {n} queries on oracle {i}");
            if let Some(b) = bad {
                return Err(b);
            }
            continue;
        }
        let retry = v[i].cand.is_some() && ctx.chance(1, 3);
        let g0 = match ctx.pick(4) {
            0 => 0.0,
            1 => {
                // close to the true objective at this point
                let b = judge(&v[i].spec, &x, 0.0).better.map(|b| b.gamma).unwrap_or(0.0);
                (b * (1.0 + ctx.normal() * ctx.logu(1e-8, 0.1))).max(0.0)
            }
            2 => unit(&v[i].spec) * ctx.logu(1e-6, 1e3),
            _ => v[i].gamma,
        };
        let mut g = g0;
        let s = &mut v[i];
        let (rep, extra) = ask(s, &x, &mut g, retry);
        ev!(ctx, "{st}: oracle {i} query {x:?} best value {g0}{} -> {} gradient {:?} offset {:?}, best value {g}", if retry { " retry" } else { "" }, if rep.better { "improved" } else { "cut" }, rep.g, rep.cut);
        let what = format!("{} oracle, query {st} at {x:?} with best value {g0}{}", s.spec.name(), if retry { " (retry)" } else { "" });
        judge15(ctx, &what, s, &x, retry, &rep, extra)?;
        ctx.nontrivial = true;
        let s = &mut v[i];
        if g.is_finite() && g >= 0.0 && g < 1e4 * unit(&s.spec) {
            s.gamma = g;
        }
        if s.gamma > 0.0 && ctx.chance(1, 5) {
            v[i].gamma = 0.0;
        }
        v[i].last = x;
    }
    Ok(())
}

pub const C14: Prop = Prop {
    id: "C14", run: c14, quick: 140000, thorough: 3000000,
    rule: "one run = one to three filter problems whose oracles are queried in an interleaved order (feasibility, optimising, repeated, poisoned, by solver sessions that may panic); every reply judged; non-trivial when a reply was judged; distinct by the sequence of operations and faults",
    measure: "hash of filter sizes, operation sequence and faults",
    real: "LowpassOracle, cutting_plane_optim, Ell, EllStable", stub: "none (the judge is the simulator's own evaluation of the specifications)",
    assumptions: &["band edges away from grid points by 1e-6 of a grid step, stop band not empty", "values within 1e-9 of a threshold may be judged either way", "a poisoned query itself may panic or answer anything"],
};
pub const C15: Prop = Prop {
    id: "C15", run: c15, quick: 1600000, thorough: 20000000,
    rule: "one run = one to three profit (plain, robust, discrete) or quasi-convex problems whose oracles are queried in an interleaved order (random, repeated, boundary, retry, poisoned, by solver sessions that may panic); every reply judged; non-trivial when a reply was judged; distinct by oracle kinds, operation sequence and faults",
    measure: "hash of oracle kinds, operation sequence and faults",
    real: "ProfitOracle, ProfitRbOracle, ProfitOracleQ, quasicvx::MyOracle, drivers, Ell, EllStable", stub: "none (the judge is the simulator's own evaluation of the constraints)",
    assumptions: &["best values are non-negative, as in every documented use", "values within 1e-9 of a threshold and rounding ties may be judged either way", "retries follow a fresh query that produced a rounded candidate, as the discrete driver does"],
};
