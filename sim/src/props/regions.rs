//! C01-C04: what a search region does over a history of cuts, faults, clones and re-centrings.
use super::Prop;
use crate::ctx::{Ctx, Outcome};
use crate::la::*;
use crate::spaces::*;

const EPS: f64 = f64::EPSILON;
/// histories end once the region is worse conditioned than this (Frobenius bound)
const COND_MAX: f64 = 1e9;

struct Snap {
    r: Region,
    l: Mat,
    cond: f64,
    inv_norm: f64,
}

fn frob(m: &Mat) -> f64 {
    norm(&m.a)
}

/// region reconstructed through the public interface, with its Cholesky factor
fn snap(ctx: &mut Ctx, sp: &Sp, when: &str) -> Result<Snap, String> {
    let r = sp.region();
    ensure!(ctx, r.finite(), "{}: region is not finite {when}: centre {:?}", sp.name(), r.c);
    let Some(l) = r.p.chol() else {
        return Err(format!("{}: region is not a proper ellipsoid {when}: half-width form {:?}", sp.name(), r.p.a));
    };
    let n = l.n;
    let mut inv = 0.0;
    for j in 0..n {
        let mut e = vec![0.0; n];
        e[j] = 1.0;
        let y = l.fsolve(&e);
        inv += dot(&y, &y);
    }
    let cond = frob(&r.p) * inv;
    Ok(Snap { r, l, cond, inv_norm: inv.sqrt() })
}

fn cmax(c: &[f64]) -> f64 {
    c.iter().fold(0.0, |a: f64, x| a.max(x.abs()))
}

/// rounding allowance for comparing two regions in whitened coordinates
fn tol_of(a: &Snap, b: &Snap) -> f64 {
    let n = a.l.n as f64;
    1e-8 + 300.0 * EPS * n.sqrt() * (a.cond + b.cond)
        + 32.0 * EPS * (cmax(&a.r.c) + cmax(&b.r.c)) * (a.inv_norm + b.inv_norm)
}

/// rounding that a thin two-sided cut may cause: the relative error of a difference of size w^2
fn thin(q: &CutReq) -> f64 {
    let (lo, hi) = q.slab();
    let w = (hi.min(1.0) - lo.max(-1.0)).max(1e-9);
    40.0 * EPS / (w * w)
}

/// a thin cut of an already thin region would only measure rounding: make it one-sided
fn tame(q: &mut CutReq, cond: f64) {
    let (lo, hi) = q.slab();
    let w = hi.min(1.0) - lo.max(-1.0);
    if w > 0.0 && w < 3e-3 && cond / (w * w) > 3e10 && q.far().is_some_and(|b| b < 1.0) {
        q.b1 = Some(q.b0.max(0.0) + 1.5);
    }
}

fn grads(n: usize) -> Vec<V> {
    let _ = n;
    Vec::new()
}

/// one history in fifty is very long, in a low dimension and with moderate cuts
fn gen_long(ctx: &mut Ctx) -> bool {
    let l = ctx.chance(1, 50);
    if l {
        ctx.cover("very long histories");
    }
    l
}

fn start(ctx: &mut Ctx, kinds: u64, long: bool) -> (usize, Init, V, usize) {
    let n = if long { ctx.range(2, 4) } else { gen_dim(ctx) };
    let (init, c) = gen_init(ctx, n);
    let which = ctx.pick(kinds) as usize;
    ctx.sym(which as u64 * 100 + n as u64);
    (n, init, c, which)
}

fn any_cut(ctx: &mut Ctx, n: usize, prev: &[V], long: bool) -> CutReq {
    if long {
        gen_mild(ctx, n, prev, false)
    } else {
        gen_cut(ctx, n, prev)
    }
}

fn nsteps(ctx: &mut Ctx, n: usize, long: bool) -> usize {
    if long {
        return ctx.range(50, if ctx.deep { 1500 } else { 300 });
    }
    let cap = if n > 24 { 3 } else if n > 12 { 8 } else if ctx.deep { 60 } else { 24 };
    ctx.range(1, cap)
}

fn check_initial(ctx: &mut Ctx, sp: &Sp, init: &Init, c: &[f64]) -> Outcome {
    let n = c.len();
    let s = snap(ctx, sp, "at construction")?;
    let want = Region { c: c.to_vec(), p: init.p(n) };
    let lw = want.p.chol().ok_or("harness: initial matrix")?;
    let w = whiten(&lw, &s.r.p);
    let mut d = 0.0f64;
    for i in 0..n {
        for j in 0..n {
            let t = if i == j { 1.0 } else { 0.0 };
            d = d.max((w.at(i, j) - t).abs());
        }
    }
    let tol = 1e-8 + 300.0 * EPS * s.cond * n as f64;
    ensure!(ctx, d <= tol, "{}: constructed region differs from the one described: relative shape error {d:e}", sp.name());
    ensure!(ctx, s.r.c == c, "{}: constructed centre {:?} instead of {:?}", sp.name(), s.r.c, c);
    Ok(())
}

/// every sampled extreme point of old-region ∩ slab must lie in the new region
fn contained(ctx: &mut Ctx, who: &str, old: &Snap, new: &Snap, q: &CutReq) -> Outcome {
    let n = old.l.n;
    let lt = old.l.t();
    let mut a = lt.mv(&q.g);
    let an = norm(&a);
    a = scale(&a, 1.0 / an);
    let (lo, hi) = q.slab();
    let (lo, hi) = (lo.max(-1.0), hi.min(1.0));
    let tol = tol_of(old, new) + thin(q);
    let seeds: Vec<V> = (0..2).map(|_| ctx.vec_normal(n)).collect();
    let b = basis_from(&a, &seeds);
    let mut levels = vec![lo, hi, 0.5 * (lo + hi)];
    if lo < 0.0 && hi > 0.0 {
        levels.push(0.0);
    }
    for al in levels {
        let rim = (1.0 - al * al).max(0.0).sqrt();
        for w in &b[1..] {
            for sgn in [1.0, -1.0] {
                let u = axpy(&scale(&a, al), sgn * rim, w);
                let x = axpy(&old.r.c, 1.0, &old.l.mv(&u));
                let y = new.l.fsolve(&sub(&x, &new.r.c));
                let d = dot(&y, &y);
                ensure!(ctx, d <= 1.0 + tol,
                    "{who}: {:?} cut with normalised offsets ({}, {:?}) in dimension {n} discards a satisfying point of the region: it lies at squared radius {d} of the new region (level {al})",
                    q.kind, q.b0, q.far());
            }
        }
    }
    Ok(())
}

/// does the cut's slab meet the interior of the region? Some(true/false), None = borderline
fn slab_meets(q: &CutReq, cond: f64) -> Option<bool> {
    let (lo, hi) = q.slab();
    if lo > hi || lo > 1.0 + 5e-6 || hi < -1.0 - 5e-6 {
        return Some(false);
    }
    let (l, h) = (lo.max(-1.0), hi.min(1.0));
    if h - l > 5e-8 + 300.0 * EPS * q.g.len() as f64 * cond {
        Some(true)
    } else {
        None
    }
}

fn log_cut(ctx: &mut Ctx, q: &CutReq, tau: f64, s: u8) {
    ev!(ctx, "{:?} cut, gradient {:?}, offsets/tau ({}, {:?}), tau {tau:e} -> {}", q.kind, q.g, q.b0, if q.single { None } else { q.b1 }, st_name(s));
    let bin = |x: f64| ((x * 8.0).clamp(-40.0, 40.0).floor() + 50.0) as u64;
    ctx.sym(1000 + (q.kind as u64) * 7 + s as u64 + bin(q.b0) * 100 + q.far().map_or(0, bin) * 10000);
}

/// a benign disturbance between cuts: clone-and-drop, re-centring
fn disturb(ctx: &mut Ctx, sp: &mut Sp, n: usize, long: bool) {
    if ctx.chance(1, 8) {
        let c = sp.clone();
        *sp = c;
        ctx.fault("region replaced by its clone");
        ev!(ctx, "region replaced by its clone");
    }
    if ctx.chance(1, 10) {
        let tau = sp.half_sq(&{
            let mut e = vec![0.0; n];
            e[0] = 1.0;
            e
        }).sqrt();
        // in long histories back towards the origin, or the region becomes too small for its centre
        let keep = if long { 0.0 } else { 1.0 };
        let x: V = sp.center().iter().map(|v| keep * v + tau * ctx.uni(-1.0, 1.0)).collect();
        sp.recenter(&x);
        ctx.fault("region re-centred by its user");
        ev!(ctx, "region re-centred to {x:?}");
    }
}

/// A discrete cut exactly at the depth where it stops having an effect: numbers are powers of two
/// so that the threshold is hit without rounding. Whatever the status, the region must survive.
fn exact_threshold(ctx: &mut Ctx) -> Outcome {
    let n = [2usize, 4, 8][ctx.idx(3)];
    let k = 4f64.powi(ctx.idx(9) as i32 - 4);
    let init = match ctx.pick(2) {
        0 => Init::Scalar(k),
        _ => Init::Diag((0..n).map(|_| 4f64.powi(ctx.idx(5) as i32 - 2)).collect()),
    };
    let which = ctx.pick(5) as usize;
    let mut sp = init.make(which, &vec![0.0; n]);
    let mut g = vec![0.0; n];
    g[ctx.idx(n)] = 2f64.powi(ctx.idx(7) as i32 - 3);
    let old = snap(ctx, &sp, "initially")?;
    let tau = sp.half_sq(&g).sqrt();
    let q = CutReq { kind: Kind::Q, g, single: ctx.chance(1, 2), b0: -1.0 / n as f64, b1: if ctx.chance(1, 2) { Some(1.0) } else { None } };
    let s = sp.apply(q.kind, &q.g, &q.cut(tau));
    ctx.steps += 1;
    log_cut(ctx, &q, tau, s);
    ctx.cover("cuts exactly at the no-effect threshold");
    ensure!(ctx, s != 1, "{}: discrete cut exactly at the no-effect threshold answered no-solution", sp.name());
    let new = snap(ctx, &sp, "after a discrete cut exactly at the no-effect threshold")?;
    contained(ctx, sp.name(), &old, &new, &q)?;
    ctx.nontrivial = true;
    Ok(())
}

fn c01(ctx: &mut Ctx) -> Outcome {
    if ctx.chance(1, 50) {
        return exact_threshold(ctx);
    }
    let long = gen_long(ctx);
    let (n, init, c, which) = start(ctx, 5, long);
    let mut sp = init.make(which, &c);
    ev!(ctx, "{} region in dimension {n}: {init:?} centre {c:?}", sp.name());
    check_initial(ctx, &sp, &init, &c)?;
    let steps = nsteps(ctx, n, long);
    let mut prev = grads(n);
    let mut old = snap(ctx, &sp, "initially")?;
    for _ in 0..steps {
        disturb(ctx, &mut sp, n, long);
        let infeasible = ctx.chance(1, 8);
        let mut q = if infeasible { gen_infeasible(ctx, n, &prev) } else { any_cut(ctx, n, &prev, long).fit(&sp) };
        tame(&mut q, old.cond);
        old.r.c = sp.center();
        let tsq = sp.half_sq(&q.g);
        let want = old.r.p.quad(&q.g);
        let tq = 1e-8 + 300.0 * EPS * n as f64 * old.cond;
        ensure!(ctx, (tsq - want).abs() <= tq * want.abs(),
            "{}: reported squared half-width {tsq:e} along {:?} but the region's other half-widths imply {want:e}", sp.name(), q.g);
        let tau = tsq.sqrt();
        let cut = q.cut(tau);
        let s = sp.apply(q.kind, &q.g, &cut);
        ctx.steps += 1;
        log_cut(ctx, &q, tau, s);
        match slab_meets(&q, old.cond) {
            Some(false) => {
                ctx.fault("infeasible cut");
                ensure!(ctx, s == 1, "{}: {:?} cut with normalised offsets ({}, {:?}) that no point of the region satisfies is answered {}", sp.name(), q.kind, q.b0, q.far(), st_name(s));
            }
            Some(true) => {
                ensure!(ctx, s != 1, "{}: {:?} cut with normalised offsets ({}, {:?}) is satisfied inside the region but answered no-solution", sp.name(), q.kind, q.b0, q.far());
                ensure!(ctx, s != 3, "{}: cut answered unknown", sp.name());
            }
            None => {}
        }
        let new = snap(ctx, &sp, "after a cut")?;
        if s != 1 {
            if slab_meets(&q, old.cond) == Some(true) {
                contained(ctx, sp.name(), &old, &new, &q)?;
            }
            if s == 0 {
                ctx.nontrivial = true;
                ctx.cover("accepted cuts");
            } else {
                ctx.cover("ignored cuts");
            }
        } else {
            ctx.cover("refused cuts");
        }
        prev.push(q.g.clone());
        old = new;
        if old.cond > COND_MAX || EPS * cmax(&old.r.c) * old.inv_norm > 1e-5 {
            ctx.cover("histories ended at the conditioning limit");
            break;
        }
    }
    Ok(())
}

fn c02(ctx: &mut Ctx) -> Outcome {
    let long = gen_long(ctx);
    let (n, init, c, which) = start(ctx, 4, long);
    let mut sp = init.make(which, &c);
    ev!(ctx, "{} region in dimension {n}: {init:?} centre {c:?}", sp.name());
    let steps = nsteps(ctx, n, long);
    let mut prev = grads(n);
    let mut old = snap(ctx, &sp, "initially")?;
    for _ in 0..steps {
        disturb(ctx, &mut sp, n, long);
        old.r.c = sp.center();
        let mut q = any_cut(ctx, n, &prev, long).fit(&sp);
        tame(&mut q, old.cond);
        let tau = sp.half_sq(&q.g).sqrt();
        let s = sp.apply(q.kind, &q.g, &q.cut(tau));
        ctx.steps += 1;
        log_cut(ctx, &q, tau, s);
        let (lo, hi) = q.slab();
        let new = snap(ctx, &sp, "after a cut")?;
        let leading_meets = q.kind == Kind::Central || (-1.0..=1.0).contains(&q.b0);
        let (rs, rlo, rhi) = ref_status(n, &q);
        if leading_meets && slab_meets(&q, old.cond) == Some(true) {
            let tol = tol_of(&old, &new) * (n as f64) + 1e-7 + thin(&q);
            if s == 0 {
                ctx.nontrivial = true;
                ctx.cover("accepted cuts");
                let mut want = old.r.clone();
                if rs == 0 {
                    want.cut(&q.g, rlo, rhi);
                }
                let dv = 0.5 * (new.r.ln_det() - old.r.ln_det());
                let wv = 0.5 * (want.ln_det() - old.r.ln_det());
                ensure!(ctx, dv <= wv + tol,
                    "{}: {:?} cut with normalised offsets ({}, {:?}) in dimension {n}: ln(volume ratio) is {dv}, the smallest enclosing ellipsoid gives {wv}", sp.name(), q.kind, q.b0, q.far());
                ensure!(ctx, dv <= tol, "{}: volume grew: ln ratio {dv}", sp.name());
                if hi <= 0.0 {
                    let rate = -1.0 / (2.0 * (n as f64 + 1.0));
                    ctx.cover("centre-excluding cuts");
                    ensure!(ctx, dv <= rate + tol, "{}: centre-excluding cut in dimension {n} shrank ln(volume) by only {dv}, guaranteed {rate}", sp.name());
                }
                // the minimum-volume ellipsoid is unique: compare shape and centre as well
                if let Some(lw) = want.p.chol() {
                    let w = whiten(&lw, &new.r.p);
                    let mut d = 0.0f64;
                    for i in 0..n {
                        for j in 0..n {
                            let t = if i == j { 1.0 } else { 0.0 };
                            d = d.max((w.at(i, j) - t).abs());
                        }
                    }
                    let dc = norm(&lw.fsolve(&sub(&new.r.c, &want.c)));
                    let t2 = 100.0 * tol;
                    ensure!(ctx, d <= t2 && dc <= t2,
                        "{}: {:?} cut with normalised offsets ({}, {:?}) in dimension {n}: result is not the smallest enclosing ellipsoid (shape error {d:e}, centre error {dc:e})", sp.name(), q.kind, q.b0, q.far());
                }
            } else if s == 2 {
                ctx.nontrivial = true;
                ctx.cover("ignored cuts");
                ensure!(ctx, rs == 2, "{}: {:?} cut with normalised offsets ({}, {:?}) in dimension {n} declared without effect although a smaller enclosing ellipsoid exists (slab {lo}..{hi})", sp.name(), q.kind, q.b0, q.far());
            }
        }
        prev.push(q.g.clone());
        old = new;
        if old.cond > COND_MAX || EPS * cmax(&old.r.c) * old.inv_norm > 1e-5 {
            ctx.cover("histories ended at the conditioning limit");
            break;
        }
    }
    Ok(())
}

fn c03(ctx: &mut Ctx) -> Outcome {
    let long = gen_long(ctx);
    let (n, init, c, which) = start(ctx, 3, long);
    let mut sp = init.make(which, &c);
    ev!(ctx, "{} region in dimension {n}: {init:?} centre {c:?}", sp.name());
    let steps = if long { nsteps(ctx, n, long) } else { ctx.range(2, if n > 24 { 6 } else if ctx.deep { 60 } else { 24 }) };
    let mut prev = grads(n);
    // the twin only ever sees accepted cuts
    let mut twin = sp.clone();
    for _ in 0..steps {
        let q = match ctx.pick(8) {
            0..=3 => any_cut(ctx, n, &prev, long).fit(&sp),
            4..=6 => gen_infeasible(ctx, n, &prev),
            _ => {
                // a reply without direction
                let kind = [Kind::Bias, Kind::Central, Kind::Q][ctx.idx(3)];
                let single = ctx.chance(1, 2);
                CutReq { kind, g: vec![0.0; n], single, b0: 0.0, b1: if ctx.chance(1, 2) { Some(0.0) } else { None } }
            }
        };
        let tau = sp.half_sq(&q.g).sqrt();
        let cut = q.cut(tau);
        let zero = q.g.iter().all(|x| *x == 0.0);
        let before = sp.clone();
        let s = sp.apply(q.kind, &q.g, &cut);
        ctx.steps += 1;
        log_cut(ctx, &q, tau, s);
        if zero {
            ctx.fault("direction-less reply");
            ensure!(ctx, s != 0, "{}: a cut with an all-zero gradient and zero offset was accepted", sp.name());
        }
        if s == 0 {
            let t = twin.apply(q.kind, &q.g, &cut);
            ctx.cover("accepted cuts");
            ensure!(ctx, t == 0 && bits(&twin.center()) == bits(&sp.center()) && twin.measure().to_bits() == sp.measure().to_bits(),
                "{}: after rejected cuts the next accepted cut gives centre {:?} and measure {:e}; a region that never saw the rejected cuts gives {:?} and {:e} ({})",
                sp.name(), sp.center(), sp.measure(), twin.center(), twin.measure(), st_name(t));
        } else {
            ctx.nontrivial = true;
            ctx.fault("rejected cut");
            ctx.cover(match s { 1 => "no-solution replies", 2 => "no-effect replies", _ => "unknown replies" });
            let dirs: Vec<V> = (0..3).map(|k| if k == 0 { ctx.unit_vec(n) } else { gen_grad(ctx, n, &prev) }).collect();
            let (fa, fb) = (sp.fingerprint(&dirs), before.fingerprint(&dirs));
            ensure!(ctx, fa == fb,
                "{}: {:?} cut with normalised offsets ({}, {:?}) was answered {} but changed the region: centre {:?} -> {:?}, half-widths {:?} -> {:?}",
                sp.name(), q.kind, q.b0, q.far(), st_name(s), before.center(), sp.center(),
                dirs.iter().map(|d| before.half_sq(d)).collect::<Vec<_>>(), dirs.iter().map(|d| sp.half_sq(d)).collect::<Vec<_>>());
            // a later ordinary cut must also act identically on both
            let f = gen_cut(ctx, n, &prev).fit(&sp);
            let tf = before.half_sq(&f.g).sqrt();
            let (mut x, mut y) = (sp.clone(), before.clone());
            let (sx, sy) = (x.apply(f.kind, &f.g, &f.cut(tf)), y.apply(f.kind, &f.g, &f.cut(tf)));
            ensure!(ctx, sx == sy && x.fingerprint(&dirs) == y.fingerprint(&dirs),
                "{}: after a cut answered {} the region reacts differently to a later {:?} cut", sp.name(), st_name(s), f.kind);
        }
        if !zero {
            prev.push(q.g.clone());
        }
        if ctx.chance(1, 6) {
            let k = sp.clone();
            sp = k;
            ctx.fault("region replaced by its clone");
        }
        // stop before extreme thinness makes half-widths meaningless
        let e = sp.half_sq(&ctx.unit_vec(n));
        if !e.is_finite() || e < 1e-200 {
            break;
        }
    }
    Ok(())
}

struct Rep {
    sp: Sp,
    /// durable state: a clone and the log position it corresponds to
    saved: (Sp, usize),
}

fn c04(ctx: &mut Ctx) -> Outcome {
    let long = gen_long(ctx);
    let n = if long { ctx.range(2, 4) } else { gen_dim(ctx) };
    let (init, c) = gen_init(ctx, n);
    ctx.sym(n as u64);
    ev!(ctx, "dimension {n}: {init:?} centre {c:?}");
    let mut reps: Vec<Rep> = [0, 1, 2, 3, 5]
        .into_iter()
        .map(|w| {
            let sp = init.make(w, &c);
            Rep { saved: (sp.clone(), 0), sp }
        })
        .collect();
    #[derive(Clone)]
    enum Entry {
        Cut(Kind, V, AnyCut),
        Center(V),
    }
    let mut log: Vec<Entry> = Vec::new();
    let mut model = Region { c: c.clone(), p: init.p(n) };
    let mut prev = grads(n);
    let steps = nsteps(ctx, n, long);
    let mut condmax = 1.0f64;
    let (mut pmax, mut cmx) = (0.0f64, 0.0f64);
    // long histories: relative shape error and absolute centre error that rounding may have caused
    let (mut perr, mut cerr) = (0.0f64, 0.0f64);
    // error made by a thin two-sided cut, magnified by later ones
    let mut terr = 0.0f64;
    let (mut tol, mut tolc) = (1e-7, 1e-7);
    for step in 0..steps {
        // faults on replicas
        for i in 0..reps.len() {
            if ctx.chance(1, 12) {
                reps[i].saved = (reps[i].sp.clone(), log.len());
                ev!(ctx, "{} checkpointed", reps[i].sp.name());
            }
            if ctx.chance(1, 12) {
                let (mut sp, from) = reps[i].saved.clone();
                for e in &log[from..] {
                    match e {
                        Entry::Cut(k, g, a) => {
                            sp.apply(*k, g, a);
                        }
                        Entry::Center(x) => sp.recenter(x),
                    }
                }
                ctx.fault("replica crashed and replayed its log");
                ev!(ctx, "{} crashed, restored from entry {from}", sp.name());
                // compare bit for bit unless scaling mode was toggled in between
                reps[i].sp = sp;
            }
        }
        if ctx.chance(1, 10) {
            for r in reps.iter_mut().take(1) {
                if let Imp::E(e) = &mut r.sp.imp {
                    e.no_defer_trick = !e.no_defer_trick;
                }
            }
            ctx.fault("scaling option toggled mid-run");
            ev!(ctx, "scaling option toggled");
        }
        let pf = frob(&model.p);
        let entry = if ctx.chance(1, if long { 6 } else { 12 }) {
            let g = ctx.unit_vec(n);
            let t = model.tau(&g);
            let from = if long { vec![0.0; n] } else { model.c.clone() };
            let x = axpy(&from, t * ctx.uni(-0.5, 0.5), &g);
            ctx.fault("re-centred");
            ev!(ctx, "re-centred to {x:?}");
            Entry::Center(x)
        } else {
            let q = if ctx.chance(1, 6) {
                ctx.fault("infeasible cut");
                gen_infeasible(ctx, n, &prev)
            } else {
                if long { let still = ctx.chance(1, 2); gen_mild(ctx, n, &prev, still) } else { gen_cut(ctx, n, &prev) }
            };
            if q.kind == Kind::Q && !q.single && q.b0 < -1.0 && q.b1.map_or(false, |b| b > -1.0 && b < 1.0) {
                // leading plane outside the region: minimality is not defined, see C01
                continue;
            }
            let tau = model.tau(&q.g);
            let (rs, lo, hi) = ref_status(n, &q);
            let cut = q.cut(tau);
            let mut ss = Vec::new();
            for r in reps.iter_mut() {
                ss.push(r.sp.apply(q.kind, &q.g, &cut));
            }
            ctx.steps += 1;
            log_cut(ctx, &q, tau, ss[0]);
            for (r, s) in reps.iter().zip(&ss) {
                ensure!(ctx, *s == rs, "step {step}: {:?} cut with normalised offsets ({}, {:?}) in dimension {n}: {} answers {}, the textbook method {}",
                    q.kind, q.b0, q.far(), r.sp.name(), st_name(*s), st_name(rs));
            }
            if rs == 0 {
                model.cut(&q.g, lo, hi);
                // planes stay where they are, so a thin remainder magnifies relative errors
                let w = (hi - lo).min(1.0);
                perr /= w * w;
                terr /= w * w;
                if w < 3e-3 {
                    terr += 200.0 * EPS / (w * w);
                }
                ctx.nontrivial = true;
            }
            prev.push(q.g.clone());
            // public fields of the plain ellipsoid describe the last cut and the region
            let e = Entry::Cut(q.kind, q.g.clone(), cut);
            log.push(e.clone());
            for r in &reps {
                if let Imp::E(el) = &r.sp.imp {
                    let t = tau * tau;
                    ensure!(ctx, (el.tsq - t).abs() <= t * if long { 10.0 * tol } else { 1e-6 + 10.0 * terr + 1e3 * EPS * condmax * (step + 1) as f64 },
                        "step {step}: {} publishes squared half-width {:e}, the cut's is {t:e}", r.sp.name(), el.tsq);
                    ensure!(ctx, r.sp.measure().to_bits() == el.tsq.to_bits(), "{}: published and reported measure differ", r.sp.name());
                }
            }
            e
        };
        if let Entry::Center(x) = &entry {
            model.c = x.clone();
            cerr = 0.0;
            for r in reps.iter_mut() {
                r.sp.recenter(x);
            }
            log.push(entry.clone());
        }
        let Some(lm) = model.p.chol() else { break };
        let mut inv = 0.0;
        for j in 0..n {
            let mut e = vec![0.0; n];
            e[j] = 1.0;
            let y = lm.fsolve(&e);
            inv += dot(&y, &y);
        }
        // rounding made at any earlier step is measured against the region as it is now
        pmax = pmax.max(frob(&model.p));
        cmx = cmx.max(cmax(&model.c));
        condmax = pmax * inv;
        if long {
            perr += 200.0 * EPS * frob(&model.p) * inv;
            cerr += 64.0 * EPS * cmax(&model.c) + perr * pf.sqrt();
            tol = 1e-7 + perr;
            tolc = 1e-7 + cerr * inv.sqrt();
        } else {
            tol = 1e-7 + 100.0 * EPS * condmax * (step + 1) as f64
                + 64.0 * EPS * cmx * inv.sqrt() * (step + 1) as f64
                + terr;
            tolc = tol;
        }
        if tol.max(tolc) > if long { 1e-5 } else { 1e-3 } {
            ctx.cover("histories ended at the conditioning limit");
            break;
        }
        let full = ctx.chance(1, if long { 40 } else { 4 }) || step + 1 == steps;
        for r in &reps {
            let cc = r.sp.center();
            ensure!(ctx, cc.iter().all(|x| x.is_finite()), "step {step}: {} has centre {cc:?}", r.sp.name());
            let dc = norm(&lm.fsolve(&sub(&cc, &model.c)));
            ensure!(ctx, dc <= tolc, "step {step}: centre of {} is off the textbook centre by {dc:e} (in units of the region), allowed {tolc:e}", r.sp.name());
            let dirs: Vec<V> = if full { Vec::new() } else { (0..2).map(|_| ctx.unit_vec(n)).collect() };
            for d in dirs {
                let (a, b) = (r.sp.half_sq(&d), model.p.quad(&d));
                ensure!(ctx, (a - b).abs() <= tol * b, "step {step}: {} has squared half-width {a:e} along {d:?}, textbook {b:e}", r.sp.name());
            }
            if full {
                let p = r.sp.shape();
                let w = whiten(&lm, &p);
                let mut d = 0.0f64;
                for i in 0..n {
                    for j in 0..n {
                        let t = if i == j { 1.0 } else { 0.0 };
                        d = d.max((w.at(i, j) - t).abs());
                    }
                }
                ensure!(ctx, d <= tol * n as f64, "step {step}: shape of {} is off the textbook shape by {d:e} (relative), allowed {:e}", r.sp.name(), tol * n as f64);
                if let Imp::E(el) = &r.sp.imp {
                    let pub_p = Mat { n, a: el.mq.data().iter().map(|x| x * el.kappa).collect() };
                    let w = whiten(&lm, &pub_p);
                    let mut d = 0.0f64;
                    for i in 0..n {
                        for j in 0..n {
                            let t = if i == j { 1.0 } else { 0.0 };
                            d = d.max((w.at(i, j) - t).abs());
                        }
                    }
                    ensure!(ctx, d <= tol * n as f64 && bits(el.xc.data()) == bits(&r.sp.center()),
                        "step {step}: public shape, scale and centre of {} do not describe its region (error {d:e})", r.sp.name());
                    ctx.cover("public-field comparisons");
                }
                ctx.cover("full shape comparisons");
            }
        }
    }
    Ok(())
}

const REAL: &str = "Ell, EllStable, EllCalc and Arr of the crate, driven through the public SearchSpace interface";
const STUB: &str = "cut sources are generated; regions are observed through clones; reference mathematics is the simulator's own";
const ASSUME: &[&str] = &[
    "dimension at least 2 (up to 70); region condition number up to 1e9, two-sided cuts at least 3e-5 half-widths thick",
    "comparisons with reference mathematics use a rounding allowance proportional to machine epsilon times the region's condition number",
];

pub const C01: Prop = Prop {
    id: "C01", run: c01, quick: 240000, thorough: 3000000,
    rule: "one run = one seeded history of cuts, clones, re-centrings and infeasible cuts on one region; non-trivial when at least one cut was accepted; distinct by the abstract history (implementation, dimension, cut kinds, offset bins, statuses, faults)",
    measure: "hash of implementation, dimension and the sequence of (cut kind, offset bin, status, fault)",
    real: REAL, stub: STUB, assumptions: ASSUME,
};
pub const C02: Prop = Prop {
    id: "C02", run: c02, quick: 240000, thorough: 3000000,
    rule: "one run = one seeded history of cuts, clones and re-centrings; non-trivial when at least one cut was accepted or declared without effect; distinct by abstract history",
    measure: "hash of implementation, dimension and the sequence of (cut kind, offset bin, status, fault)",
    real: REAL, stub: STUB, assumptions: ASSUME,
};
pub const C03: Prop = Prop {
    id: "C03", run: c03, quick: 900000, thorough: 10000000,
    rule: "one run = one seeded history mixing accepted cuts with rejected ones; non-trivial when at least one cut was rejected; distinct by abstract history",
    measure: "hash of implementation, dimension and the sequence of (cut kind, offset bin, status, fault)",
    real: REAL, stub: STUB, assumptions: &["comparison is bit for bit between two copies of the same real region, so no tolerance is involved"],
};
pub const C04: Prop = Prop {
    id: "C04", run: c04, quick: 160000, thorough: 3000000,
    rule: "one run = one shared cut log applied to four replicas and the textbook model, with crashes/restores, re-centrings, option toggles and infeasible cuts; non-trivial when at least one cut was accepted; distinct by abstract history",
    measure: "hash of dimension and the sequence of (cut kind, offset bin, status, fault)",
    real: REAL, stub: STUB, assumptions: ASSUME,
};
