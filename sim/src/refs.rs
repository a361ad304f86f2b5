//! Direct evaluation of the bundled problems from their data alone: every constraint with its
//! linearisation, and the objective.  Used to judge oracle replies and returned incumbents.
use crate::la::*;
use crate::problems::Spec;
use crate::spaces::AnyCut;

#[derive(Clone, Debug)]
pub struct Con {
    /// positive when violated
    pub f: f64,
    pub g: V,
    pub cut: AnyCut,
    pub name: String,
}

/// what an accepting/improving reply must say
#[derive(Clone, Debug)]
pub struct Better {
    pub gamma: f64,
    /// rounding scale of the objective
    pub gscale: f64,
    /// any of these gradients/cuts is right (several frequencies may attain the maximum)
    pub cuts: Vec<(V, AnyCut)>,
}

pub struct Judged {
    pub cons: Vec<Con>,
    pub better: Option<Better>,
    /// rounding scale of the constraint values
    pub scale: f64,
}

pub const TOL: f64 = 1e-9;

impl Judged {
    pub fn tol(&self) -> f64 {
        TOL * self.scale
    }
    pub fn definitely_violated(&self) -> Option<&Con> {
        self.cons.iter().find(|c| c.f > self.tol())
    }
    pub fn clearly_fine(&self) -> bool {
        self.cons.iter().all(|c| c.f < -self.tol())
    }
}

pub struct Grid {
    pub rows: Vec<V>,
    pub np: usize,
    pub ns: usize,
}

/// the frequency grid of the filter problem: 15 n points on [0, pi]
pub fn grid(n: usize, wp: f64, ws: f64) -> Grid {
    let m = 15 * n;
    let rows = (0..m)
        .map(|i| {
            let w = std::f64::consts::PI * i as f64 / (m - 1) as f64;
            (0..n).map(|j| if j == 0 { 1.0 } else { 2.0 * (w * j as f64).cos() }).collect()
        })
        .collect();
    let np = (wp * (m - 1) as f64).floor() as usize + 1;
    let ns = (ws * (m - 1) as f64).floor() as usize + 1;
    Grid { rows, np, ns }
}

/// band edges whose grid index does not depend on rounding
pub fn clean_edge(n: usize, w: f64) -> bool {
    let t = w * (15 * n - 1) as f64;
    let fr = t - t.floor();
    fr > 1e-6 && fr < 1.0 - 1e-6
}

pub fn judge_lowpass(gr: &Grid, lp: f64, up: f64, sp: f64, x: &[f64]) -> Judged {
    let mut cons = Vec::new();
    let mut fmax = f64::NEG_INFINITY;
    let neg = |v: &V| scale(v, -1.0);
    let mut vals = Vec::new();
    for (i, r) in gr.rows.iter().enumerate() {
        let v = dot(r, x);
        vals.push(v);
        if i < gr.np {
            cons.push(Con { f: v - up, g: r.clone(), cut: AnyCut::Par(v - up, Some(v - lp)), name: format!("pass-band upper at {i}") });
            cons.push(Con { f: lp - v, g: neg(r), cut: AnyCut::Par(lp - v, Some(up - v)), name: format!("pass-band lower at {i}") });
        } else if i >= gr.ns {
            cons.push(Con { f: v - sp, g: r.clone(), cut: AnyCut::Par(v - sp, Some(v)), name: format!("stop-band upper at {i}") });
            cons.push(Con { f: -v, g: neg(r), cut: AnyCut::Par(-v, Some(sp - v)), name: format!("stop-band sign at {i}") });
            fmax = fmax.max(v);
        } else {
            cons.push(Con { f: -v, g: neg(r), cut: AnyCut::Par(-v, None), name: format!("transition sign at {i}") });
        }
    }
    let mut e = vec![0.0; x.len()];
    e[0] = -1.0;
    cons.push(Con { f: -x[0], g: e, cut: AnyCut::Par(-x[0], None), name: "leading coefficient sign".into() });
    // everything is linear in x and the levels: no absolute part
    let sc = 2.0 * x.iter().map(|v| v.abs()).sum::<f64>() + up.abs() + lp.abs();
    let mut cuts = Vec::new();
    for i in gr.ns..gr.rows.len() {
        if vals[i] >= fmax - TOL * sc {
            cuts.push((gr.rows[i].clone(), AnyCut::Par(0.0, Some(fmax))));
        }
    }
    Judged { cons, better: Some(Better { gamma: fmax, gscale: sc, cuts }), scale: sc }
}

fn profit(par: (f64, f64, f64), el: &[f64], pr: &[f64], y: &[f64], gamma: f64) -> Judged {
    let lps = (par.0 * par.1).ln();
    let cobb = lps + el[0] * y[0] + el[1] * y[1];
    let q: V = (0..2).map(|i| pr[i] * y[i].exp()).collect();
    let vx = q[0] + q[1];
    let lk = par.2.ln();
    let tot = gamma + vx;
    let f1 = tot.ln() - cobb;
    let cons = vec![
        Con { f: y[0] - lk, g: vec![1.0, 0.0], cut: AnyCut::Single(y[0] - lk), name: "input limit".into() },
        Con { f: f1, g: (0..2).map(|i| q[i] / tot - el[i]).collect(), cut: AnyCut::Single(f1), name: "profit level".into() },
    ];
    let rev = cobb.exp();
    let sc = 1.0 + y[0].abs() + y[1].abs() + lps.abs() + tot.abs().ln().abs();
    Judged {
        cons,
        better: Some(Better { gamma: rev - vx, gscale: rev + vx, cuts: vec![((0..2).map(|i| q[i] / rev - el[i]).collect(), AnyCut::Single(0.0))] }),
        scale: sc,
    }
}

/// worst-case data of the robust profit problem at y
pub fn robust(par: (f64, f64, f64), el: &[f64], pr: &[f64], vp: (f64, f64, f64, f64, f64), y: &[f64]) -> ((f64, f64, f64), V, V) {
    let e = [vp.0, vp.1];
    let a = (0..2).map(|i| if y[i] > 0.0 { el[i] - e[i] } else { el[i] + e[i] }).collect();
    ((par.0 - vp.2, par.1, par.2 - vp.3), a, vec![pr[0] + vp.4, pr[1] + vp.4])
}

/// The discrete candidate belonging to y: logarithm of the rounded (at least 1) quantities.
pub fn rounded(y: &[f64]) -> V {
    y.iter().map(|v| { let r = v.exp().round(); if r == 0.0 { 0.0 } else { r.ln() } }).collect()
}

/// Constraints and objective of a bundled optimisation problem at x with best value gamma.
pub fn judge(spec: &Spec, x: &[f64], gamma: f64) -> Judged {
    match spec {
        Spec::Profit { par, el, pr } | Spec::ProfitQ { par, el, pr } => profit(*par, el, pr, x, gamma),
        Spec::ProfitRb { par, el, pr, vp } => {
            let (p, a, q) = robust(*par, el, pr, *vp, x);
            let mut j = profit(p, &a, &q, x, gamma);
            // where a log-quantity is exactly zero both ends of the elasticity interval are worst cases
            let e = [vp.0, vp.1];
            for k in 1..4 {
                if (0..2).any(|i| k >> i & 1 == 1 && x[i] != 0.0) {
                    continue;
                }
                let b: V = (0..2).map(|i| if k >> i & 1 == 1 { el[i] - e[i] } else { a[i] }).collect();
                let other = profit(p, &b, &q, x, gamma);
                j.cons.extend(other.cons.into_iter().skip(1));
                if let (Some(t), Some(o)) = (j.better.as_mut(), other.better) {
                    t.cuts.extend(o.cuts);
                }
            }
            j
        }
        Spec::Quasi => {
            let (s, l) = (x[0], x[1]);
            let e = l.exp();
            let cons = vec![
                Con { f: s * s - l, g: vec![2.0 * s, -1.0], cut: AnyCut::Single(s * s - l), name: "parabola".into() },
                Con { f: -s + gamma * e, g: vec![-1.0, gamma * e], cut: AnyCut::Single(-s + gamma * e), name: "ratio level".into() },
            ];
            Judged { cons, better: Some(Better { gamma: s / e, gscale: 1.0 + (s / e).abs(), cuts: vec![(vec![-1.0, s], AnyCut::Single(0.0))] }), scale: 1.0 + s * s + l.abs() + (gamma * e).abs() }
        }
        Spec::Lowpass { n, wp, ws, lp, up, .. } => judge_lowpass(&grid(*n, *wp, *ws), *lp, *up, gamma, x),
        _ => unreachable!(),
    }
}

fn close(a: f64, b: f64, t: f64) -> bool {
    a == b || (a - b).abs() <= t
}

pub fn same_cut(g: &[f64], cut: &AnyCut, eg: &[f64], ecut: &AnyCut, sc: f64) -> bool {
    let gm = 1.0 + eg.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    if g.len() != eg.len() || !g.iter().zip(eg).all(|(a, b)| close(*a, *b, TOL * gm)) {
        return false;
    }
    let t = 2.0 * TOL * sc;
    match (cut, ecut) {
        (AnyCut::Single(a), AnyCut::Single(b)) => close(*a, *b, t),
        (AnyCut::Par(a, None), AnyCut::Par(b, None)) => close(*a, *b, t),
        (AnyCut::Par(a, Some(c)), AnyCut::Par(b, Some(d))) => close(*a, *b, t) && close(*c, *d, t),
        _ => false,
    }
}
