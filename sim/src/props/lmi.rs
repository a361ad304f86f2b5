//! C16, C17: matrix-inequality oracles and the shared factorisation workspace over arbitrary
//! histories (failed, poisoned, panicking and interleaved operations).
use super::bisect::guarded;
use super::Prop;
use crate::ctx::{Ctx, Outcome};
use crate::la::*;
use crate::problems::*;
use crate::run::Injected;
use crate::spaces::*;
use ellalgo_rs::arr::Arr;
use ellalgo_rs::cutting_plane::*;
use ellalgo_rs::oracles::ldlt_mgr::LDLTMgr;
use ellalgo_rs::oracles::lmi0_oracle::LMI0Oracle;
use ellalgo_rs::oracles::lmi_old_oracle::LMIOldOracle;
use ellalgo_rs::oracles::lmi_oracle::LMIOracle;
use std::cell::Cell;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

const BAND: f64 = 1e-9;

fn fnorm(a: &Mat) -> f64 {
    norm(&a.a)
}

/// L D L^T with small integer L and powers of two in D: every operation on it is exact, in any
/// order.  Returns the matrix and D.
fn exact_ldlt(ctx: &mut Ctx, m: usize, bad: bool) -> (Mat, V) {
    let mut l = Mat::eye(m);
    for i in 0..m {
        for j in 0..i {
            l.set(i, j, ctx.range(0, 4) as f64 - 2.0);
        }
    }
    let mut d: V = (0..m).map(|_| [1.0, 2.0, 0.5, 4.0][ctx.idx(4)]).collect();
    if bad {
        let k = ctx.idx(m);
        d[k] = [-1.0, 0.0, -2.0, -0.5][ctx.idx(4)];
        for x in d.iter_mut().skip(k + 1) {
            if ctx.chance(1, 3) {
                *x = -*x;
            }
        }
    }
    (l.mul(&Mat::diag(&d)).mul(&l.t()), d)
}

fn sym(ctx: &mut Ctx, m: usize, s: f64) -> Mat {
    let mut a = Mat::zero(m);
    for i in 0..m {
        for j in 0..=i {
            let v = s * ctx.normal();
            a.set(i, j, v);
            a.set(j, i, v);
        }
    }
    a
}

// ------------------------------------------------------------------ C17

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Callback,
    Full,
    Semi,
}

fn factor(w: &mut LDLTMgr, how: How, a: &Mat) -> bool {
    match how {
        How::Callback => w.factor(|i, j| a.at(i, j)),
        How::Full => w.factorize(&mat_arr(a)),
        How::Semi => w.factor_with_allow_semidefinite(|i, j| a.at(i, j)),
    }
}

struct Latest {
    a: Mat,
    /// the matrix before it was scaled by diag(s) from both sides
    base: Mat,
    s: V,
    how: How,
    ok: bool,
    witnessed: bool,
    clean: bool,
}

struct Ws {
    m: usize,
    w: LDLTMgr,
    latest: Option<Latest>,
    prev: Vec<Mat>,
}

/// matrix, exact D when known, whether free of poison
fn gen_matrix(ctx: &mut Ctx, ws: &Ws) -> (Mat, Option<V>, bool) {
    let m = ws.m;
    match ctx.pick(10) {
        9 => {
            // exact definite blocks separated by zero rows: semidefinite beyond doubt
            let mut a = Mat::zero(m);
            let mut d = Vec::new();
            while d.len() < m {
                if ctx.chance(1, 3) {
                    d.push(0.0);
                    continue;
                }
                let len = ctx.range(1, m - d.len());
                let (b, e) = exact_ldlt(ctx, len, false);
                for i in 0..len {
                    for j in 0..len {
                        a.set(d.len() + i, d.len() + j, b.at(i, j));
                    }
                }
                d.extend(e);
            }
            (a, Some(d), true)
        }
        0 | 1 => {
            let bad = ctx.chance(2, 3);
            let (a, d) = exact_ldlt(ctx, m, bad);
            (a, Some(d), true)
        }
        2 => {
            let s = ctx.logu(1e-3, 1e3);
            let c = ctx.logu(1.0, 1e6);
            (rand_spd(ctx, m, s, s * c), None, true)
        }
        3 => {
            let s = ctx.logu(1e-3, 1e3);
            (sym(ctx, m, s), None, true)
        }
        4 => {
            // definite leading block, one bad direction late
            let s = ctx.logu(1e-2, 1e2);
            let mut a = rand_spd(ctx, m, s, 10.0 * s);
            let k = ctx.idx(m);
            let v = a.at(k, k) - ctx.uni(0.0, 20.0) * s;
            a.set(k, k, v);
            (a, None, true)
        }
        5 => {
            // blocks of zeros: singular leading minors
            let mut a = sym(ctx, m, 1.0);
            let k = ctx.idx(m);
            for i in 0..m {
                a.set(i, k, 0.0);
                a.set(k, i, 0.0);
            }
            (a, None, true)
        }
        6 if !ws.prev.is_empty() => {
            let i = ctx.idx(ws.prev.len());
            (ws.prev[i].clone(), None, true)
        }
        7 => {
            let mut a = rand_spd(ctx, m, 0.5, 5.0);
            let (i, j) = (ctx.idx(m), ctx.idx(m));
            let v = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e308][ctx.idx(4)];
            a.set(i, j, v);
            a.set(j, i, v);
            (a, None, false)
        }
        _ => {
            let mut a = Mat::zero(m);
            for i in 0..m {
                a.set(i, i, if ctx.chance(1, 4) { -1.0 } else { 1.0 } * ctx.logu(1e-3, 1e3));
            }
            (a, None, true)
        }
    }
}

/// Scaling of the unknowns by powers of two: in exact step with every operation, so it changes no
/// verdict and no rounding.
fn pow2(ctx: &mut Ctx, m: usize, wide: usize) -> V {
    match ctx.pick(4) {
        0 => {
            let e = ctx.range(0, 2 * wide) as i32 - wide as i32;
            vec![2f64.powi(e); m]
        }
        1 => (0..m).map(|_| 2f64.powi(ctx.range(0, 2 * wide) as i32 - wide as i32)).collect(),
        _ => vec![1.0; m],
    }
}

fn congruent(a: &Mat, s: &[f64]) -> Mat {
    let mut r = a.clone();
    for i in 0..a.n {
        for j in 0..a.n {
            r.set(i, j, a.at(i, j) * (s[i] * s[j]));
        }
    }
    r
}

/// the published state, comparable bit for bit (all NaNs alike)
fn state(w: &LDLTMgr) -> Vec<u64> {
    let mut v = vec![w.pos.0 as u64, w.pos.1 as u64, w.is_spd() as u64];
    v.extend(bits(w.wit.data()));
    v
}

fn c17(ctx: &mut Ctx) -> Outcome {
    let k = ctx.range(1, 3);
    let mut v: Vec<Ws> = (0..k)
        .map(|_| {
            let m = if ctx.chance(1, 25) { ctx.range(9, 24) } else { ctx.size(1, 8, 64) };
            Ws { m, w: LDLTMgr::new(m), latest: None, prev: Vec::new() }
        })
        .collect();
    for w in &v {
        ctx.sym(w.m as u64);
    }
    let steps = if ctx.chance(1, 300) { ctx.range(100, 800) } else { ctx.range(2, if ctx.deep { 40 } else { 16 }) };
    for s in 0..steps {
        let i = ctx.idx(k);
        let op = ctx.pick(10);
        ctx.steps += 1;
        ctx.sym(op * 4 + i as u64);
        match op {
            0..=4 => {
                let (base, exact, clean) = gen_matrix(ctx, &v[i]);
                let scl = pow2(ctx, v[i].m, 24);
                let a = congruent(&base, &scl);
                let how = [How::Callback, How::Full, How::Semi][ctx.idx(3)];
                let ws = &mut v[i];
                if !clean {
                    ctx.fault("poisoned matrix");
                }
                let ok = factor(&mut ws.w, how, &a);
                let mut fresh = LDLTMgr::new(ws.m);
                let fok = factor(&mut fresh, how, &a);
                ev!(ctx, "{s}: workspace {i} (size {}) factors {:?} {:?} -> {}", ws.m, how, a.a, ok);
                let what = format!("step {s}: size-{} workspace, {how:?} factorisation", ws.m);
                ensure!(ctx, ok == ws.w.is_spd(), "{what}: returns {ok} but publishes {}", ws.w.is_spd());
                ensure!(ctx, ok == fok && ws.w.pos == fresh.pos, "{what}: answers {ok} at {:?}, a fresh workspace answers {fok} at {:?}", ws.w.pos, fresh.pos);
                ctx.nontrivial = true;
                if clean {
                    let (e, _) = base.eig();
                    let mn = e.iter().cloned().fold(f64::INFINITY, f64::min);
                    let sc = fnorm(&base);
                    if mn > BAND * sc {
                        ensure!(ctx, ok, "{what}: a positive definite matrix (smallest eigenvalue {mn:e}) is rejected");
                        ctx.cover("definite matrices accepted");
                    } else if mn < -BAND * sc && how != How::Semi {
                        ensure!(ctx, !ok, "{what}: a matrix with eigenvalue {mn:e} is accepted");
                        ctx.cover("indefinite matrices rejected");
                    }
                    if let Some(d) = &exact {
                        match d.iter().position(|x| *x <= 0.0) {
                            None => ensure!(ctx, ok, "{what}: an exactly positive definite matrix is rejected"),
                            Some(_) if how == How::Semi && d.iter().all(|x| *x >= 0.0) => {
                                let block = (0..ws.m).filter(|q| d[*q] == 0.0).all(|q| (0..ws.m).all(|j| a.at(q, j) == 0.0));
                                if block {
                                    ensure!(ctx, ok, "{what}: a positive semidefinite matrix with exact pivots {d:?} is rejected");
                                    ctx.cover("semidefinite matrices accepted");
                                }
                            }
                            Some(q) => {
                                if how != How::Semi || d[q] < 0.0 {
                                    ensure!(ctx, !ok, "{what}: a matrix with exact pivots {d:?} is accepted");
                                    ctx.cover("exactly known failures");
                                }
                            }
                        }
                    }
                    if ok && (mn > BAND * sc || exact.as_ref().is_some_and(|d| d.iter().all(|x| *x > 0.0))) {
                        check_sqrt(ctx, &what, ws, &a)?;
                    }
                    if ws.prev.len() < 4 {
                        ws.prev.push(base.clone());
                    }
                }
                ws.latest = Some(Latest { a, base, s: scl, how, ok, witnessed: false, clean });
                if !ok && ctx.chance(1, 2) {
                    witness(ctx, s, i, &mut v[i])?;
                }
            }
            5 | 6 => {
                if matches!(&v[i].latest, Some(l) if !l.ok) {
                    witness(ctx, s, i, &mut v[i])?;
                }
            }
            7 => {
                // quadratic form of some matrix along the witness
                let m = v[i].m;
                let q = sym(ctx, m, 1.0);
                let ws = &mut v[i];
                let Some(l) = &ws.latest else { continue };
                if l.ok || !l.witnessed {
                    continue;
                }
                let got = ws.w.sym_quad(&mat_arr(&q));
                let mut fresh = LDLTMgr::new(ws.m);
                factor(&mut fresh, l.how, &l.a);
                fresh.witness();
                let want = fresh.sym_quad(&mat_arr(&q));
                ev!(ctx, "{s}: workspace {i} quadratic form {got}");
                ensure!(ctx, bits(&[got]) == bits(&[want]), "step {s}: size-{m} workspace: quadratic form {got}, a fresh workspace computes {want}");
                let wv = vec_of(&ws.w.wit);
                if l.clean && wv.iter().all(|x| x.is_finite()) {
                    let t: f64 = wv.iter().map(|x| x.abs()).sum::<f64>();
                    ensure!(ctx, (got - q.quad(&wv)).abs() <= 1e-10 * fnorm(&q) * t * t, "step {s}: size-{m} workspace: quadratic form {got} but the published witness gives {}", q.quad(&wv));
                }
                ctx.cover("quadratic forms");
            }
            8 => {
                // the element callback panics part way
                let (a, _, _) = gen_matrix(ctx, &v[i]);
                let at = ctx.idx(v[i].m * (v[i].m + 1) / 2);
                let semi = ctx.chance(1, 3);
                let ws = &mut v[i];
                let n = Cell::new(0);
                let get = |r: usize, c: usize| {
                    if n.get() == at {
                        panic_any(Injected);
                    }
                    n.set(n.get() + 1);
                    a.at(r, c)
                };
                let r = guarded(|| if semi { ws.w.factor_with_allow_semidefinite(get) } else { ws.w.factor(get) });
                ev!(ctx, "{s}: workspace {i} factorisation {} at element {at}", if r.is_none() { "panics" } else { "ends before" });
                if let Some(ok) = r {
                    ws.latest = Some(Latest { base: a.clone(), s: vec![1.0; ws.m], a, how: if semi { How::Semi } else { How::Callback }, ok, witnessed: false, clean: false });
                } else {
                    ctx.fault("panic inside a factorisation");
                    ws.latest = None;
                }
            }
            _ => {
                // misuse: documented to panic; it must not disturb later answers
                let ws = &mut v[i];
                let Some(l) = &ws.latest else { continue };
                let ok = l.ok;
                let before = state(&ws.w);
                let r = catch_unwind(AssertUnwindSafe(|| {
                    if ok {
                        ws.w.witness();
                    } else {
                        ws.w.sqrt();
                    }
                }));
                ctx.fault("misuse of the workspace");
                ev!(ctx, "{s}: workspace {i} misused");
                ensure!(ctx, r.is_err(), "step {s}: {} did not refuse", if ok { "a witness against a definite matrix" } else { "the square root of a rejected matrix" });
                ensure!(ctx, state(&ws.w) == before, "step {s}: refused misuse changed the workspace");
            }
        }
    }
    Ok(())
}

fn check_sqrt(ctx: &mut Ctx, what: &str, ws: &Ws, a: &Mat) -> Outcome {
    let m = ws.m;
    let r = ws.w.sqrt();
    for i in 0..m {
        for j in 0..i {
            ensure!(ctx, r.at(i, j) == 0.0, "{what}: square root is not upper triangular at ({i},{j})");
        }
    }
    for i in 0..m {
        for j in 0..m {
            let s: f64 = (0..m).map(|q| r.at(q, i) * r.at(q, j)).sum();
            let t = 1e-10 * (a.at(i, i) * a.at(j, j)).sqrt();
            ensure!(ctx, (s - a.at(i, j)).abs() <= t, "{what}: square root gives {s} at ({i},{j}) where the matrix has {}", a.at(i, j));
        }
    }
    ctx.cover("square roots");
    Ok(())
}

fn witness(ctx: &mut Ctx, s: usize, i: usize, ws: &mut Ws) -> Outcome {
    let l = ws.latest.as_mut().unwrap();
    let ep = ws.w.witness();
    l.witnessed = true;
    let mut fresh = LDLTMgr::new(ws.m);
    factor(&mut fresh, l.how, &l.a);
    let fep = fresh.witness();
    let wv = vec_of(&ws.w.wit);
    ev!(ctx, "{s}: workspace {i} witness {wv:?} value {ep}");
    let what = format!("step {s}: size-{} workspace, witness after a failed {:?} factorisation", ws.m, l.how);
    ensure!(ctx, bits(&[ep]) == bits(&[fep]), "{what}: value {ep}, a fresh workspace gives {fep}");
    ensure!(ctx, state(&ws.w) == state(&fresh), "{what}: witness {wv:?}, a fresh workspace gives {:?}", vec_of(&fresh.wit));
    ctx.cover("witnesses");
    if l.clean {
        ensure!(ctx, ep >= 0.0, "{what}: value {ep} is negative");
        if wv.iter().any(|x| !x.is_finite()) {
            return Ok(()); // overflow through a pivot of rounding size
        }
        ensure!(ctx, wv.iter().any(|x| *x != 0.0), "{what}: the witness is zero");
        // in the unscaled unknowns, normalised by the last one
        let u = l.s[wv.iter().rposition(|x| *x != 0.0).unwrap()];
        let wb: V = (0..ws.m).map(|k| wv[k] * l.s[k] / u).collect();
        let eb = ep / (u * u);
        let t: f64 = (0..ws.m).map(|k| wb[k].abs() * (l.base.at(k, k).abs() + 2.0 * eb).sqrt()).sum();
        let q = l.base.quad(&wb);
        ensure!(ctx, (q + eb).abs() <= 1e-10 * t * t, "{what}: quadratic form of the witness is {:e}, value returned {ep:e} (witness {wv:?})", q * u * u);
    }
    Ok(())
}

// ------------------------------------------------------------------ C16

struct Group {
    s: LmiSpec,
    lmi: LMIOracle,
    old: LMIOldOracle,
    zero: LMI0Oracle,
    /// exact problems: x is an integer vector with known D there
    exact: Option<(V, V)>,
    inside: Vec<V>,
    last: V,
    /// exact scalings between the problem as judged and as given to the oracles
    units: Units,
}

#[derive(Clone, Debug)]
struct Units {
    /// of the unknowns
    x: V,
    /// of the matrix rows (and columns)
    rows: V,
}

/// the coefficient matrices as the oracles get them
fn given(s: &LmiSpec, u: &Units) -> (Vec<Mat>, Mat) {
    let f = s.f.iter().zip(&u.x).map(|(f, k)| congruent(f, &u.rows).scaled(1.0 / k)).collect();
    (f, congruent(&s.b, &u.rows))
}

fn oracles(s: &LmiSpec, u: &Units) -> (LMIOracle, LMIOldOracle, LMI0Oracle) {
    let (f, b) = given(s, u);
    let m: Vec<Arr> = f.iter().map(mat_arr).collect();
    let z = std::iter::once(mat_arr(&b)).chain(f.iter().map(|f| mat_arr(&f.scaled(-1.0)))).collect();
    (LMIOracle::new(m.clone(), mat_arr(&b)), LMIOldOracle::new(m, mat_arr(&b)), LMI0Oracle::new(z))
}

fn at(s: &LmiSpec, x: &[f64]) -> Mat {
    let mut a = s.b.clone();
    for (f, t) in s.f.iter().zip(x) {
        for (p, q) in a.a.iter_mut().zip(&f.a) {
            *p -= q * t;
        }
    }
    a
}

fn scale_at(s: &LmiSpec, x: &[f64]) -> f64 {
    fnorm(&s.b) + s.f.iter().zip(x).map(|(f, t)| fnorm(f) * t.abs()).sum::<f64>()
}

fn lam_min(a: &Mat) -> f64 {
    a.eig().0.iter().cloned().fold(f64::INFINITY, f64::min)
}

fn gen_group(ctx: &mut Ctx) -> Group {
    let mut exact = None;
    let s = if ctx.chance(1, 4) {
        let n = ctx.size(2, 4, 12);
        let m = ctx.size(1, 5, 12);
        let f: Vec<Mat> = (0..n)
            .map(|_| {
                let mut a = Mat::zero(m);
                for i in 0..m {
                    for j in 0..=i {
                        let v = ctx.range(0, 6) as f64 - 3.0;
                        a.set(i, j, v);
                        a.set(j, i, v);
                    }
                }
                a
            })
            .collect();
        let bad = ctx.chance(4, 5);
        let (mut b, d) = exact_ldlt(ctx, m, bad);
        let x: V = (0..n).map(|_| ctx.range(0, 4) as f64 - 2.0).collect();
        for (fk, t) in f.iter().zip(&x) {
            for (p, q) in b.a.iter_mut().zip(&fk.a) {
                *p += q * t;
            }
        }
        exact = Some((x, d));
        LmiSpec { m, f, b }
    } else {
        gen_lmi(ctx)
    };
    let n = s.f.len();
    let mut inside = Vec::new();
    for _ in 0..12 {
        let x: V = (0..n).map(|_| ctx.uni(-2.0, 2.0)).collect();
        if lam_min(&at(&s, &x)) > 1e-6 * scale_at(&s, &x) {
            inside.push(x);
        }
    }
    let units = Units { x: pow2(ctx, n, 45), rows: pow2(ctx, s.m, 20) };
    let (lmi, old, zero) = oracles(&s, &units);
    Group { lmi, old, zero, exact, inside, last: vec![0.0; n], s, units }
}

/// kind 0 lazy, 1 eager, 2 homogeneous (asked at t*(1, x))
fn ask(g: &mut Group, kind: usize, x: &[f64], t: f64) -> Option<(V, f64)> {
    let u = &g.units;
    let y: V = x.iter().zip(&u.x).map(|(v, k)| v * k).collect();
    let r = match kind {
        0 => g.lmi.assess_feas(&arr(&y)).map(|(v, c)| (vec_of(&v), c.0)),
        1 => g.old.assess_feas(&arr(&y)).map(|(v, c)| (vec_of(&v), c.0)),
        _ => {
            let y: V = std::iter::once(t).chain(y.iter().map(|v| v * t)).collect();
            g.zero.assess_feas(&arr(&y)).map(|(v, c)| (vec_of(&v), c))
        }
    };
    r.map(|(mut v, c)| {
        let skip = if kind == 2 { 1 } else { 0 };
        for (p, k) in v.iter_mut().skip(skip).zip(&u.x) {
            *p *= k;
        }
        (v, c)
    })
}

fn ask_fresh(s: &LmiSpec, u: &Units, kind: usize, x: &[f64], t: f64) -> Option<(V, f64)> {
    let (lmi, old, zero) = oracles(s, u);
    let mut g = Group { lmi, old, zero, exact: None, inside: vec![], last: vec![], s: s.clone(), units: u.clone() };
    ask(&mut g, kind, x, t)
}

const KIND: [&str; 3] = ["lazy", "eager", "homogeneous"];

fn judge16(ctx: &mut Ctx, what: &str, g: &Group, kind: usize, x: &[f64], t: f64, r: &Option<(V, f64)>) -> Outcome {
    let s = &g.s;
    let n = x.len();
    let a = at(s, x);
    let sc = scale_at(s, x);
    let lam = lam_min(&a);
    // history independence
    let f = ask_fresh(s, &g.units, kind, x, t);
    let same = match (r, &f) {
        (None, None) => true,
        (Some(p), Some(q)) => bits(&p.0) == bits(&q.0) && bits(&[p.1]) == bits(&[q.1]),
        _ => false,
    };
    ensure!(ctx, same, "{what}: answers {r:?}; a fresh oracle asked only this answers {f:?}");
    let Some((grad, ep)) = r else {
        ensure!(ctx, lam > -BAND * sc, "{what}: accepted although the matrix has eigenvalue {lam:e} (scale {sc:e})");
        if let Some((xe, d)) = &g.exact {
            if xe == x && (t == 1.0 || kind < 2) {
                ensure!(ctx, d.iter().all(|v| *v > 0.0), "{what}: accepted although the matrix has exact pivots {d:?}");
            }
        }
        ctx.cover("accepting replies");
        return Ok(());
    };
    ensure!(ctx, lam <= BAND * sc, "{what}: rejected although the matrix is positive definite (smallest eigenvalue {lam:e}, scale {sc:e})");
    ctx.cover("rejecting replies");
    // the homogeneous variant: drop to the affine slice; its gradient along (1, x) is the offset
    let (grad, ep): (V, f64) = if kind == 2 {
        ensure!(ctx, grad.len() == n + 1, "{what}: gradient of length {}", grad.len());
        // g.(y - y0) + ep with y = t(1, z): t g_x.(z - x) + ep; divide by t
        (grad[1..].to_vec(), ep / t)
    } else {
        ensure!(ctx, grad.len() == n, "{what}: gradient of length {}", grad.len());
        (grad.clone(), *ep)
    };
    if grad.iter().any(|v| !v.is_finite()) || !ep.is_finite() {
        ensure!(ctx, lam.abs() < 1e-6 * sc || near_singular(&a, sc), "{what}: the cut is not finite: {grad:?}, {ep}");
        return Ok(());
    }
    ensure!(ctx, ep >= 0.0, "{what}: offset {ep} does not exclude the query point");
    // the first failing pivot, found independently
    if let Some((v, d)) = own_witness(&a, sc) {
        let vn = dot(&v, &v);
        let eg: V = s.f.iter().map(|f| f.quad(&v)).collect();
        let fsc: f64 = s.f.iter().map(fnorm).sum::<f64>() * vn + d.abs();
        // equal up to a positive factor: compare after normalising (gradient, offset)
        let got: V = grad.iter().cloned().chain([ep]).collect();
        let want: V = eg.iter().cloned().chain([d]).collect();
        let gn = norm(&got);
        let wn = norm(&want);
        ensure!(ctx, gn > 0.0 || wn <= 1e-7 * fsc, "{what}: the cut is empty");
        if wn > 1e-4 * fsc && gn > 0.0 {
            let lam_ = gn / wn;
            let off = (0..want.len()).map(|k| (got[k] - lam_ * want[k]).abs()).fold(0.0, f64::max);
            ensure!(ctx, off <= 1e-6 * lam_ * fsc, "{what}: gradient {grad:?} with offset {ep}; the witness {v:?} certifies gradient {eg:?} with offset {d}");
            ctx.cover("cuts matched with an independent certificate");
        }
    }
    // every known feasible point satisfies the cut
    let gs: f64 = norm(&grad) * (1.0 + norm(x)) + ep;
    if !near_singular(&a, sc) {
        for z in &g.inside {
            let val = dot(&grad, &sub(z, x)) + ep;
            ensure!(ctx, val <= 1e-7 * gs, "{what}: the cut (gradient {grad:?}, offset {ep}) removes the feasible point {z:?} by {val:e}");
        }
        if !g.inside.is_empty() {
            ctx.cover("cuts tried on known feasible points");
        }
    }
    Ok(())
}

/// some leading block is close to singular: the certificate is dominated by rounding
fn near_singular(a: &Mat, sc: f64) -> bool {
    (1..=a.n).any(|k| {
        let mut b = Mat::zero(k);
        for i in 0..k {
            for j in 0..k {
                b.set(i, j, a.at(i, j));
            }
        }
        b.eig().0.iter().any(|l| l.abs() < 1e-6 * sc)
    })
}

/// Witness of the first leading block that is not definite, if that is clear of rounding.
fn own_witness(a: &Mat, sc: f64) -> Option<(V, f64)> {
    for k in 1..=a.n {
        let mut b = Mat::zero(k);
        for i in 0..k {
            for j in 0..k {
                b.set(i, j, a.at(i, j));
            }
        }
        let lam = lam_min(&b);
        if lam > 1e-4 * sc {
            continue;
        }
        if lam > -1e-5 * sc {
            return None;
        }
        // v = (-B11^-1 b, 1), value = c - b^T B11^-1 b
        let mut v = vec![0.0; a.n];
        v[k - 1] = 1.0;
        if k > 1 {
            let mut b11 = Mat::zero(k - 1);
            for i in 0..k - 1 {
                for j in 0..k - 1 {
                    b11.set(i, j, a.at(i, j));
                }
            }
            let l = b11.chol()?;
            let rhs: V = (0..k - 1).map(|i| a.at(i, k - 1)).collect();
            let y = l.fsolve(&rhs);
            // back substitution with L^T
            let mut z = y.clone();
            for i in (0..k - 1).rev() {
                let mut q = z[i];
                for j in i + 1..k - 1 {
                    q -= l.at(j, i) * z[j];
                }
                z[i] = q / l.at(i, i);
            }
            for i in 0..k - 1 {
                v[i] = -z[i];
            }
        }
        let d = -a.quad(&v);
        return Some((v, d));
    }
    None
}

fn query16(ctx: &mut Ctx, g: &Group) -> V {
    let n = g.s.f.len();
    match ctx.pick(8) {
        7 if !g.inside.is_empty() => {
            // close to the boundary of the feasible set
            let z = g.inside[ctx.idx(g.inside.len())].clone();
            let u = ctx.unit_vec(n);
            let (mut a, mut b) = (0.0f64, 8.0f64);
            for _ in 0..40 {
                let m = 0.5 * (a + b);
                if lam_min(&at(&g.s, &axpy(&z, m, &u))) > 0.0 { a = m } else { b = m }
            }
            let s = if ctx.chance(1, 2) { 1.0 } else { -1.0 };
            axpy(&z, a + s * ctx.logu(1e-8, 1e-2), &u)
        }
        0 => g.last.clone(),
        1 if g.exact.is_some() => g.exact.as_ref().unwrap().0.clone(),
        2 if !g.inside.is_empty() => {
            let z = g.inside[ctx.idx(g.inside.len())].clone();
            let u = ctx.unit_vec(n);
            axpy(&z, ctx.logu(1e-3, 3.0), &u)
        }
        3 if !g.inside.is_empty() => g.inside[ctx.idx(g.inside.len())].clone(),
        4 => {
            let s = ctx.logu(1.0, 300.0);
            scale(&ctx.unit_vec(n), s)
        }
        _ => (0..n).map(|_| ctx.uni(-2.5, 2.5)).collect(),
    }
}

fn c16(ctx: &mut Ctx) -> Outcome {
    let k = ctx.range(1, 2);
    let mut v: Vec<Group> = (0..k).map(|_| gen_group(ctx)).collect();
    for g in &v {
        ev!(ctx, "problem: {:?} in units {:?}", g.s, g.units);
        ctx.sym((g.s.m * 8 + g.s.f.len()) as u64);
    }
    let steps = if ctx.chance(1, 300) { ctx.range(100, 800) } else { ctx.range(1, if ctx.deep { 40 } else { 16 }) };
    for st in 0..steps {
        let i = ctx.idx(k);
        let kind = ctx.idx(3);
        let op = ctx.pick(9);
        ctx.steps += 1;
        ctx.sym(op * 16 + (i * 4 + kind) as u64);
        let mut x = query16(ctx, &v[i]);
        match op {
            0 => {
                let q = ctx.idx(x.len());
                x[q] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300][ctx.idx(4)];
                let g = &mut v[i];
                let r = catch_unwind(AssertUnwindSafe(|| ask(g, kind, &x, 1.0)));
                ctx.fault("poisoned query");
                if r.is_err() {
                    ctx.fault("poisoned query ended in a panic");
                }
                ev!(ctx, "{st}: {} oracle of problem {i} poisoned with {x:?}", KIND[kind]);
            }
            8 => {
                // a solver session whose every query is judged
                struct W<'a> {
                    g: &'a mut Group,
                    ctx: &'a mut Ctx,
                    kind: usize,
                    bad: Option<String>,
                    panic_at: usize,
                    k: usize,
                }
                impl OracleFeas<Arr> for W<'_> {
                    type CutChoice = SingleCut;
                    fn assess_feas(&mut self, x: &Arr) -> Option<(Arr, SingleCut)> {
                        if self.k == self.panic_at {
                            panic_any(Injected);
                        }
                        self.k += 1;
                        let r = ask(self.g, self.kind, x.data(), 1.0);
                        let what = format!("{} oracle inside a solver run, query {} at {:?}", KIND[self.kind], self.k, x.data());
                        if let Err(e) = judge16(self.ctx, &what, self.g, self.kind, x.data(), 1.0, &r) {
                            self.bad.get_or_insert(e);
                        }
                        let skip = if self.kind == 2 { 1 } else { 0 };
                        r.map(|(v, e)| (arr(&v[skip..]), SingleCut(e)))
                    }
                }
                let panic_at = if ctx.chance(1, 4) { ctx.idx(12) } else { usize::MAX };
                let opt = Options { max_iters: ctx.range(1, 25), tolerance: 1e-16, verbose: false };
                let which = ctx.idx(2);
                let mut sp = Init::Scalar(20.0).make(which, &x);
                let mut w = W { g: &mut v[i], ctx, kind, bad: None, panic_at, k: 0 };
                let r = guarded(|| cutting_plane_feas(&mut w, &mut sp, &opt));
                let (bad, n) = (w.bad.take(), w.k);
                if r.is_none() {
                    ctx.fault("session on this oracle panicked");
                }
                ctx.steps += n as u64;
                ctx.nontrivial |= n > 0;
                ev!(ctx, "{st}: solver session of {n} queries on the {} oracle of problem {i}", KIND[kind]);
                if let Some(b) = bad {
                    return Err(b);
                }
                if let Some((Some(p), _)) = r {
                    let p = vec_of(&p);
                    let lam = lam_min(&at(&v[i].s, &p));
                    ensure!(ctx, lam > -BAND * scale_at(&v[i].s, &p), "{} oracle: the solver returns {p:?}, where the matrix has eigenvalue {lam:e}", KIND[kind]);
                }
            }
            _ => {
                let t = if kind == 2 && ctx.chance(1, 3) { ctx.logu(0.1, 10.0) } else { 1.0 };
                let r = ask(&mut v[i], kind, &x, t);
                ev!(ctx, "{st}: {} oracle of problem {i} at {x:?} (scale {t}) -> {r:?}", KIND[kind]);
                let what = format!("{} oracle of a size-{} inequality, query {st} at {x:?}", KIND[kind], v[i].s.m);
                judge16(ctx, &what, &v[i], kind, &x, t, &r)?;
                ctx.nontrivial = true;
                v[i].last = x;
            }
        }
    }
    Ok(())
}

pub const C16: Prop = Prop {
    id: "C16", run: c16, quick: 600000, thorough: 12000000,
    rule: "one run = one or two matrix-inequality problems, each behind all three oracle variants, queried in an interleaved order (random, repeated, near-boundary, exactly singular, poisoned, by solver sessions that may panic); every reply judged; non-trivial when a reply was judged; distinct by sizes, operation sequence and faults",
    measure: "hash of problem sizes, operation sequence and faults",
    real: "LMIOracle, LMIOldOracle, LMI0Oracle, LDLTMgr, cutting_plane_feas, Ell, EllStable", stub: "none (the judge has its own eigenvalue solver and elimination)",
    assumptions: &["matrices are symmetric", "eigenvalues within 1e-9 of zero relative to the data may be judged either way, except for exactly representable eliminations", "a poisoned query itself may panic or answer anything"],
};
pub const C17: Prop = Prop {
    id: "C17", run: c17, quick: 2400000, thorough: 40000000,
    rule: "one run = one to three workspaces of sizes 1-8 receiving an interleaved sequence of factorisations (lazy, full, semidefinite), witnesses, quadratic forms, square roots, misuse and panicking callbacks; every answer compared with a fresh workspace and certified; non-trivial when a factorisation was judged; distinct by sizes and operation sequence",
    measure: "hash of workspace sizes, operation sequence and faults",
    real: "LDLTMgr", stub: "none (the judge has its own eigenvalue solver)",
    assumptions: &["matrices are symmetric", "the semidefinite variant's verdict on matrices that are not definite is only compared with a fresh workspace", "witness and square root are called when the latest factorisation allows them, or must panic"],
};
