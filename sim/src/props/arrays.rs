//! C19: a population of arrays under a history of operations, copies, refused and broken-off operations.
use super::bisect::guarded;
use crate::run::Injected;
use super::Prop;
use crate::ctx::{Ctx, Outcome};
use ellalgo_rs::arr::{self, Arr};
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

const EPS: f64 = f64::EPSILON;

/// What an array must hold: cols = 0 for a vector.
#[derive(Clone, Debug, PartialEq)]
struct Model {
    d: Vec<f64>,
    rows: usize,
    cols: usize,
}

impl Model {
    fn vec(d: Vec<f64>) -> Model {
        Model { rows: d.len(), cols: 0, d }
    }
    fn mat(rows: usize, cols: usize, d: Vec<f64>) -> Model {
        Model { d, rows, cols }
    }
    fn like(&self, d: Vec<f64>) -> Model {
        Model { d, rows: self.rows, cols: self.cols }
    }
    fn is_vec(&self) -> bool {
        self.cols == 0
    }
    fn symmetric(&self) -> bool {
        self.cols > 0
            && self.rows == self.cols
            && (0..self.rows).all(|i| (0..i).all(|j| self.d[i * self.cols + j].to_bits() == self.d[j * self.cols + i].to_bits()))
    }
    fn shape(&self) -> String {
        if self.is_vec() { format!("vector of {}", self.rows) } else { format!("{}x{} matrix", self.rows, self.cols) }
    }
    fn at(&self, i: usize, j: usize) -> f64 {
        self.d[i * self.cols + j]
    }
}

/// a reference result: value and allowance; allowance NaN = left open
type Ref = (f64, f64);

fn exact(x: f64) -> Ref {
    (x, 0.0)
}
fn ulps(x: f64, k: f64) -> Ref {
    (x, k * EPS * x.abs() + k * f64::MIN_POSITIVE)
}
fn open() -> Ref {
    (0.0, f64::NAN)
}

fn agrees(got: f64, want: Ref) -> bool {
    let (w, tol) = want;
    tol.is_nan() || got == w || (got.is_nan() && w.is_nan()) || (w.is_finite() && (got - w).abs() <= tol)
}

struct Item {
    a: Arr,
    m: Model,
}

fn same(a: &Arr, m: &Model) -> Result<(), String> {
    if a.rows() != m.rows || a.cols() != m.cols {
        return Err(format!("its shape is {} by {} instead of a {}", a.rows(), a.cols(), m.shape()));
    }
    if a.data().len() != m.d.len() {
        return Err(format!("it has {} elements instead of {}", a.data().len(), m.d.len()));
    }
    match (0..m.d.len()).find(|&i| a.data()[i].to_bits() != m.d[i].to_bits()) {
        Some(i) => Err(format!("element {i} is {:e} instead of {:e}", a.data()[i], m.d[i])),
        None => Ok(()),
    }
}

fn accessors(ctx: &mut Ctx, a: &Arr, m: &Model, who: &str) -> Outcome {
    ensure!(ctx, a.len() == m.d.len() && a.size() == m.d.len() && a.is_empty() == m.d.is_empty(), "{who}: len/size/is_empty disagree with the {} elements", m.d.len());
    ensure!(ctx, a.is_2d() == !m.is_vec(), "{who}: is_2d() is {} for a {}", a.is_2d(), m.shape());
    let it: Vec<u64> = a.iter().map(|x| x.to_bits()).collect();
    let w: Vec<u64> = m.d.iter().map(|x| x.to_bits()).collect();
    ensure!(ctx, it == w, "{who}: iter() yields other elements than data()");
    if !m.d.is_empty() {
        let i = ctx.idx(m.d.len());
        ensure!(ctx, a[i].to_bits() == m.d[i].to_bits(), "{who}: element [{i}] is {:e} instead of {:e}", a[i], m.d[i]);
        if !m.is_vec() {
            let (r, c) = (i / m.cols, i % m.cols);
            let w = m.d[i].to_bits();
            ensure!(ctx, a.at(r, c).to_bits() == w && a.get(r, c).to_bits() == w && a[(r, c)].to_bits() == w,
                "{who}: element ({r},{c}) reads {:e}, {:e}, {:e} instead of {:e}", a.at(r, c), a.get(r, c), a[(r, c)], m.d[i]);
        }
    }
    Ok(())
}

fn value(ctx: &mut Ctx) -> f64 {
    match ctx.pick(24) {
        0..=9 => ctx.normal(),
        10..=14 => ctx.range(0, 20) as f64 - 10.0,
        15 => 0.0,
        16 => -0.0,
        17 => ctx.logu(1e-60, 1e60),
        18 => -ctx.logu(1e-60, 1e60),
        _ => ctx.uni(-3.0, 3.0),
    }
}

fn len(ctx: &mut Ctx, lo: usize) -> usize {
    match ctx.pick(8) {
        0..=4 => ctx.range(lo, 5),
        5 | 6 => ctx.range(4, 12),
        _ => ctx.size(8, 40, 300),
    }
}

/// dimensions of a matrix, seldom large
fn dims(ctx: &mut Ctx) -> (usize, usize) {
    if ctx.chance(1, 150) {
        ctx.cover("large matrices");
        return (ctx.range(9, 40), ctx.range(9, 40));
    }
    let r = ctx.range(1, 7);
    (r, if ctx.chance(1, 2) { r } else { ctx.range(1, 7) })
}

fn values(ctx: &mut Ctx, n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = (0..n).map(|_| value(ctx)).collect();
    if n > 0 && ctx.chance(1, 25) {
        ctx.fault("non-finite elements");
        let i = ctx.idx(n);
        v[i] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][ctx.idx(3)];
    }
    v
}

/// a new array through one of the constructors
fn construct(ctx: &mut Ctx, what: &mut String) -> (Arr, Model, Vec<Ref>) {
    let ex = |m: Model| {
        let r = m.d.iter().map(|&x| exact(x)).collect::<Vec<_>>();
        (m, r)
    };
    let k = ctx.pick(14);
    let (a, (m, r)) = match k {
        0 => {
            let v = { let n = len(ctx, 0); values(ctx, n) };
            *what = format!("from a list of {}", v.len());
            (Arr::from(v.clone()), ex(Model::vec(v)))
        }
        1 => {
            let v = { let n = len(ctx, 0); values(ctx, n) };
            *what = format!("from a slice of {}", v.len());
            (Arr::from_slice_via(&v), ex(Model::vec(v)))
        }
        2 => {
            let n = len(ctx, 0);
            *what = format!("new({n})");
            (Arr::new(n), ex(Model::vec(vec![0.0; n])))
        }
        3 => {
            let n = len(ctx, 0);
            *what = format!("ones({n})");
            (Arr::ones(n), ex(Model::vec(vec![1.0; n])))
        }
        4 => {
            let (r, c) = dims(ctx);
            *what = format!("zeros({r},{c})");
            (Arr::zeros(r, c), ex(Model::mat(r, c, vec![0.0; r * c])))
        }
        5 => {
            let (r, c) = dims(ctx);
            let x = value(ctx);
            *what = format!("full({r},{c},{x:e})");
            (Arr::full(r, c, x), ex(Model::mat(r, c, vec![x; r * c])))
        }
        6 => {
            let n = dims(ctx).0;
            *what = format!("eye({n})");
            let mut d = vec![0.0; n * n];
            for i in 0..n {
                d[i * n + i] = 1.0;
            }
            (Arr::eye(n), ex(Model::mat(n, n, d)))
        }
        7 => {
            let n = dims(ctx).0;
            let v = values(ctx, n);
            *what = format!("from_diag of {n}");
            let mut d = vec![0.0; n * n];
            for i in 0..n {
                d[i * n + i] = v[i];
            }
            (Arr::from_diag(&Arr::from(v)), ex(Model::mat(n, n, d)))
        }
        8 => {
            let v = { let n = len(ctx, 0); values(ctx, n) };
            *what = format!("from_fn({})", v.len());
            (Arr::from_fn(v.len(), |i| v[i]), ex(Model::vec(v.clone())))
        }
        9 => {
            let n = len(ctx, 0);
            let (s, e) = (ctx.uni(-50.0, 50.0), ctx.uni(-50.0, 50.0));
            *what = format!("linspace({s},{e},{n})");
            let mut r = Vec::new();
            for i in 0..n {
                let t = if n == 1 { 0.0 } else { i as f64 / (n - 1) as f64 };
                r.push((s + (e - s) * t, 16.0 * EPS * (s.abs() + e.abs())));
            }
            let m = Model::vec(r.iter().map(|x| x.0).collect());
            (arr::linspace(s, e, n), (m, r))
        }
        10 => {
            let n = len(ctx, 0);
            let s = ctx.range(0, 40) as f64 - 20.0 + 0.25 * ctx.idx(4) as f64;
            let e = if n == 0 { s - ctx.idx(3) as f64 } else { s + n as f64 };
            *what = format!("arange({s},{e})");
            (arr::arange(s, e), ex(Model::vec((0..n).map(|i| s + i as f64).collect())))
        }
        11 => {
            // symmetric
            let n = dims(ctx).0;
            let mut d = vec![0.0; n * n];
            for i in 0..n {
                for j in 0..=i {
                    let x = ctx.uni(-3.0, 3.0);
                    d[i * n + j] = x;
                    d[j * n + i] = x;
                }
            }
            *what = format!("symmetric {n}x{n}");
            (Arr::from_shape_vec(n, n, d.clone()), ex(Model::mat(n, n, d)))
        }
        _ => {
            let (r, c) = dims(ctx);
            let v = values(ctx, r * c);
            *what = format!("{r}x{c} matrix from a list");
            let a = if k == 12 { Arr::from_shape_vec(r, c, v.clone()) } else { Arr::with_data(v.clone(), r, c) };
            (a, ex(Model::mat(r, c, v)))
        }
    };
    (a, m, r)
}

trait FromSlice {
    fn from_slice_via(s: &[f64]) -> Arr;
}
impl FromSlice for Arr {
    fn from_slice_via(s: &[f64]) -> Arr {
        <Arr as From<&[f64]>>::from(s)
    }
}

/// check a freshly made array against shape and per-element references, and adopt it
fn adopt(ctx: &mut Ctx, what: &str, a: Arr, m: &Model, r: &[Ref]) -> Result<Item, String> {
    ensure!(ctx, a.rows() == m.rows && a.cols() == m.cols && a.data().len() == r.len(),
        "{what}: the result is {} by {} with {} elements instead of a {}", a.rows(), a.cols(), a.data().len(), m.shape());
    for (i, w) in r.iter().enumerate() {
        ensure!(ctx, agrees(a.data()[i], *w), "{what}: element {i} of the {} is {:e} instead of {:e}", m.shape(), a.data()[i], w.0);
    }
    let m = m.like(a.data().to_vec());
    Ok(Item { a, m })
}

/// partner of the same shape: an existing one, or a new one
fn partner(ctx: &mut Ctx, pop: &[Item], i: usize) -> Item {
    let m = &pop[i].m;
    let same: Vec<usize> = (0..pop.len()).filter(|&j| pop[j].m.rows == m.rows && pop[j].m.cols == m.cols).collect();
    if ctx.chance(1, 2) {
        let j = same[ctx.idx(same.len())];
        return Item { a: pop[j].a.clone(), m: pop[j].m.clone() };
    }
    let d = values(ctx, m.d.len());
    let a = if m.is_vec() { Arr::from(d.clone()) } else { Arr::with_data(d.clone(), m.rows, m.cols) };
    Item { a, m: m.like(d) }
}

fn vector(ctx: &mut Ctx, n: usize) -> Item {
    let d = values(ctx, n);
    Item { a: Arr::from(d.clone()), m: Model::vec(d) }
}

/// sum of products with an allowance for the order of summation
fn sum_prod(x: impl Iterator<Item = (f64, f64)>) -> Ref {
    let (mut s, mut t, mut k) = (0.0, 0.0, 2.0);
    for (a, b) in x {
        if !a.is_finite() || !b.is_finite() {
            return open();
        }
        s += a * b;
        t += (a * b).abs();
        k += 1.0;
    }
    (s, 2.0 * k * EPS * t + 1e-290)
}

fn refused<R>(f: impl FnOnce() -> R) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(_) => false,
        Err(e) => e.downcast_ref::<Injected>().is_none(),
    }
}

fn step(ctx: &mut Ctx, pop: &mut Vec<Item>, s: usize) -> Outcome {
    ctx.steps += 1;
    let op = if pop.is_empty() { 0 } else { ctx.pick(24) };
    ctx.sym(op);
    let mut what = String::new();
    if op < 3 {
        let (a, m, r) = construct(ctx, &mut what);
        ev!(ctx, "{s}: array {} = {what}", pop.len());
        ctx.sym(hash_shape(&m));
        let it = adopt(ctx, &what, a, &m, &r)?;
        if pop.len() < 6 {
            pop.push(it);
        } else {
            let i = ctx.idx(pop.len());
            pop[i] = it;
        }
        return Ok(());
    }
    let i = ctx.idx(pop.len());
    let m = pop[i].m.clone();
    ctx.sym(hash_shape(&m));
    let n = m.d.len();
    let mut fresh: Option<Item> = None;
    match op {
        3..=5 => {
            // element by element with a partner of the same shape, in every form
            let q = partner(ctx, pop, i);
            let which = ctx.idx(3);
            let f = |x: f64, y: f64| match which {
                0 => x + y,
                1 => x - y,
                _ => x * y,
            };
            let r: Vec<Ref> = (0..n).map(|k| exact(f(m.d[k], q.m.d[k]))).collect();
            let sign = ["+", "-", "*"][which];
            let form = ctx.idx(3);
            ev!(ctx, "{s}: array {i} {sign} another {} ({})", m.shape(), ["borrowed", "owned", "in place"][form]);
            ctx.sym((which * 3 + form) as u64);
            let name = format!("step {s}: {} {sign} {}", m.shape(), m.shape());
            let a = &pop[i].a;
            let res = match (form, which) {
                (0, 0) => a + &q.a,
                (0, 1) => a - &q.a,
                (0, _) => a * &q.a,
                (1, 0) => a.clone() + &q.a,
                (1, 1) => a.clone() - &q.a,
                (1, _) => a.clone() * &q.a,
                (_, 0) => { let mut b = a.clone(); b += &q.a; b }
                (_, 1) => { let mut b = a.clone(); b -= &q.a; b }
                _ => a * &q.a,
            };
            let it = adopt(ctx, &name, res, &m, &r)?;
            if let Err(e) = same(&q.a, &q.m) {
                return Err(format!("{name}: the right operand changed: {e}"));
            }
            fresh = Some(it);
        }
        6 | 7 => {
            let c = match ctx.pick(8) {
                6 if ctx.chance(1, 3) => [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY][ctx.idx(4)],
                0 => 1.0,
                1 => -1.0,
                2 => ctx.logu(1e-40, 1e40),
                3 => 2.0f64.powi(ctx.range(0, 40) as i32 - 20),
                _ => ctx.uni(0.1, 4.0) * if ctx.chance(1, 2) { -1.0 } else { 1.0 },
            };
            let form = ctx.idx(9);
            ctx.sym(form as u64);
            ev!(ctx, "{s}: array {i} with the number {c:e}, form {form}");
            let a = &pop[i].a;
            let (res, r): (Arr, Vec<Ref>) = match form {
                0 => (a * c, m.d.iter().map(|x| exact(x * c)).collect()),
                1 => (a.clone() * c, m.d.iter().map(|x| exact(x * c)).collect()),
                2 => (c * a, m.d.iter().map(|x| exact(x * c)).collect()),
                3 => (c * a.clone(), m.d.iter().map(|x| exact(x * c)).collect()),
                4 => (a / c, m.d.iter().map(|x| ulps(x / c, 4.0)).collect()),
                5 => (a.clone() / c, m.d.iter().map(|x| ulps(x / c, 4.0)).collect()),
                6 => { let mut b = a.clone(); b += c; (b, m.d.iter().map(|x| exact(x + c)).collect()) }
                7 => { let mut b = a.clone(); b -= c; (b, m.d.iter().map(|x| exact(x - c)).collect()) }
                _ => {
                    let mut b = a.clone();
                    b *= c;
                    b /= c;
                    (b, m.d.iter().map(|x| ulps((x * c) / c, 8.0)).collect())
                }
            };
            fresh = Some(adopt(ctx, &format!("step {s}: {} with the number {c:e}, form {form}", m.shape()), res, &m, &r)?);
        }
        8 | 9 => {
            let form = ctx.idx(8);
            ctx.sym(form as u64);
            let a = &pop[i].a;
            let (name, res, r): (&str, Arr, Vec<Ref>) = match form {
                0 => ("-", -a, m.d.iter().map(|x| exact(-x)).collect()),
                1 => ("-", -(a.clone()), m.d.iter().map(|x| exact(-x)).collect()),
                2 => ("cos", arr::cos(a), m.d.iter().map(|x| (x.cos(), 4.0 * EPS)).collect()),
                3 => ("ln", arr::ln(a), m.d.iter().map(|x| ulps(x.ln(), 4.0)).collect()),
                4 => ("abs", arr::abs(a), m.d.iter().map(|x| exact(x.abs())).collect()),
                5 => ("exp", arr::exp(a), m.d.iter().map(|x| ulps(x.exp(), 4.0)).collect()),
                6 => ("sqrt", arr::sqrt(a), m.d.iter().map(|x| ulps(x.sqrt(), 2.0)).collect()),
                _ => ("make_same_shape", arr::make_same_shape(a), vec![exact(0.0); n]),
            };
            ev!(ctx, "{s}: {name} of array {i}");
            fresh = Some(adopt(ctx, &format!("step {s}: {name} of a {}", m.shape()), res, &m, &r)?);
        }
        10 => {
            // a user function with a memory of its own, sometimes panicking
            let at = if n > 0 && ctx.chance(1, 3) { Some(ctx.idx(n)) } else { None };
            let mut seen: Vec<u64> = Vec::new();
            let a = &pop[i].a;
            ev!(ctx, "{s}: map over array {i}, panic at {at:?}");
            let res = guarded(|| {
                a.map(|x| {
                    if at == Some(seen.len()) {
                        panic_any(Injected);
                    }
                    seen.push(x.to_bits());
                    x * 0.5 + seen.len() as f64
                })
            });
            let upto = at.unwrap_or(n);
            let want: Vec<u64> = m.d[..upto].iter().map(|x| x.to_bits()).collect();
            ensure!(ctx, seen == want, "step {s}: map handed the function {} elements, not the first {upto} once each in order", seen.len());
            if at.is_some() {
                ctx.fault("panic inside a mapped function");
            }
            ensure!(ctx, res.is_some() == at.is_none(), "step {s}: map swallowed or invented a panic");
            if let Some(res) = res {
                let r: Vec<Ref> = (0..n).map(|k| exact(m.d[k] * 0.5 + (k + 1) as f64)).collect();
                fresh = Some(adopt(ctx, &format!("step {s}: map over a {}", m.shape()), res, &m, &r)?);
            }
        }
        11 => {
            // from_fn with a panicking function
            let n = len(ctx, 0);
            let at = if n > 0 && ctx.chance(1, 2) { Some(ctx.idx(n)) } else { None };
            let mut seen = Vec::new();
            let res = guarded(|| {
                Arr::from_fn(n, |k| {
                    if at == Some(seen.len()) {
                        panic_any(Injected);
                    }
                    seen.push(k);
                    k as f64 - 0.5
                })
            });
            ev!(ctx, "{s}: from_fn({n}), panic at {at:?}");
            ensure!(ctx, seen == (0..at.unwrap_or(n)).collect::<Vec<_>>(), "step {s}: from_fn({n}) asked for elements {seen:?}");
            ensure!(ctx, res.is_some() == at.is_none(), "step {s}: from_fn swallowed or invented a panic");
            if at.is_some() {
                ctx.fault("panic inside a generating function");
            }
            if let Some(res) = res {
                let d: Vec<f64> = (0..n).map(|k| k as f64 - 0.5).collect();
                let r: Vec<Ref> = d.iter().map(|&x| exact(x)).collect();
                fresh = Some(adopt(ctx, &format!("step {s}: from_fn({n})"), res, &Model::vec(d), &r)?);
            }
        }
        12 | 13 => {
            ensure!(ctx, agrees(pop[i].a.sum(), sum_prod(m.d.iter().map(|&x| (x, 1.0)))), "step {s}: the sum of {:?} is reported as {:e}", m.d, pop[i].a.sum());
            if m.is_vec() {
                let q = partner(ctx, pop, i);
                let got = pop[i].a.dot(&q.a);
                ev!(ctx, "{s}: dot product of array {i} with another = {got:e}");
                let w = sum_prod(m.d.iter().copied().zip(q.m.d.iter().copied()));
                ensure!(ctx, agrees(got, w), "step {s}: the dot product of {:?} and {:?} is reported as {got:e} instead of {:e}", m.d, q.m.d, w.0);
                if n > 0 {
                    let k = len(ctx, 1).min(40);
                    let q = vector(ctx, k);
                    ev!(ctx, "{s}: outer product of array {i} with a vector of {k}");
                    let r: Vec<Ref> = (0..n * k).map(|e| exact(m.d[e / k] * q.m.d[e % k])).collect();
                    let res = pop[i].a.outer(&q.a);
                    let mm = Model::mat(n, k, r.iter().map(|x| x.0).collect());
                    let it = adopt(ctx, &format!("step {s}: outer product of vectors of {n} and {k}"), res, &mm, &r)?;
                    if n * k <= 100 {
                        fresh = Some(it);
                    }
                }
            } else {
                let q = vector(ctx, m.cols);
                ev!(ctx, "{s}: array {i} times a vector");
                let r: Vec<Ref> = (0..m.rows).map(|k| sum_prod((0..m.cols).map(|j| (m.at(k, j), q.m.d[j])))).collect();
                let res = pop[i].a.dot_mv(&q.a);
                let mm = Model::vec(vec![0.0; m.rows]);
                let it = adopt(ctx, &format!("step {s}: {} times a vector", m.shape()), res, &mm, &r)?;
                if let Err(e) = same(&q.a, &q.m) {
                    return Err(format!("step {s}: product with a vector changed the vector: {e}"));
                }
                fresh = Some(it);
            }
        }
        14 => {
            if !m.is_vec() {
                let k = ctx.idx(m.rows);
                let d: Vec<f64> = (0..m.cols).map(|j| m.at(k, j)).collect();
                let r: Vec<Ref> = d.iter().map(|&x| exact(x)).collect();
                ev!(ctx, "{s}: row {k} of array {i}");
                let res = pop[i].a.row(k);
                fresh = Some(adopt(ctx, &format!("step {s}: row {k} of a {}", m.shape()), res, &Model::vec(d), &r)?);
            }
        }
        15 => {
            if m.symmetric() {
                let q = vector(ctx, m.rows);
                let al = match ctx.pick(4) {
                    0 => 0.0,
                    1 => ctx.logu(1e-12, 1e12),
                    _ => ctx.uni(-3.0, 3.0),
                };
                ev!(ctx, "{s}: rank-one update of array {i} by {al:e}");
                let k = m.rows;
                let r: Vec<Ref> = (0..k * k)
                    .map(|e| {
                        let (u, v) = (q.m.d[e / k], q.m.d[e % k]);
                        let t = al * u * v;
                        if !t.is_finite() || !m.d[e].is_finite() { open() } else { (m.d[e] + t, 8.0 * EPS * (m.d[e].abs() + t.abs()) + 1e-300) }
                    })
                    .collect();
                let mut b = pop[i].a.clone();
                b.rank_one_update(al, &q.a);
                let it = adopt(ctx, &format!("step {s}: rank-one update of a {}", m.shape()), b, &m, &r)?;
                if let Err(e) = same(&q.a, &q.m) {
                    return Err(format!("step {s}: rank-one update changed its vector: {e}"));
                }
                pop[i] = it;
            }
        }
        16 => {
            // equality is shape and values
            let j = ctx.idx(pop.len());
            let mut b = pop[j].a.clone();
            let mut bm = pop[j].m.clone();
            if !bm.d.is_empty() && ctx.chance(1, 2) {
                let k = ctx.idx(bm.d.len());
                bm.d[k] += 1.0;
                b[k] = bm.d[k];
            }
            let eq = m == bm;
            ev!(ctx, "{s}: array {i} == array {j} expected {eq}");
            ensure!(ctx, (pop[i].a == b) == eq, "step {s}: comparing {:?} with {:?} answers {}", m, bm, !eq);
        }
        17..=19 => {
            // writes, through every door
            if n > 0 {
                let k = ctx.idx(n);
                let v = value(ctx);
                let door = ctx.idx(8);
                ctx.sym(door as u64);
                ev!(ctx, "{s}: write {v:e} at {k} of array {i}, way {door}");
                let (r, c) = if m.is_vec() { (0, 0) } else { (k / m.cols, k % m.cols) };
                let it = &mut pop[i];
                match door {
                    0 if !m.is_vec() => it.a.set(r, c, v),
                    1 if !m.is_vec() => *it.a.at_mut(r, c) = v,
                    2 if !m.is_vec() => it.a[(r, c)] = v,
                    3 => it.a.data_mut()[k] = v,
                    4 => *it.a.iter_mut().nth(k).unwrap() = v,
                    _ => it.a[k] = v,
                }
                it.m.d[k] = v;
            }
            if op == 19 {
                let q = partner(ctx, pop, i);
                ev!(ctx, "{s}: copy_from into array {i}");
                pop[i].a.copy_from(&q.a);
                pop[i].m.d = q.m.d.clone();
                if let Err(e) = same(&q.a, &q.m) {
                    return Err(format!("step {s}: copy_from changed its source: {e}"));
                }
            }
        }
        20 => {
            // crash with only a copy surviving, or the copy moving to another thread and back
            let c = pop[i].a.clone();
            let m2 = m.clone();
            if ctx.chance(1, 10) {
                ctx.fault("moved to another thread");
                let r = std::thread::spawn(move || {
                    let ok = same(&c, &m2);
                    let d = if c.is_2d() { c.dot_mv(&Arr::ones(c.cols())) } else { &c * 2.0 };
                    (ok, c, d)
                })
                .join();
                let Ok((ok, c, d)) = r else { return Err(format!("step {s}: an operation on another thread panicked")) };
                if let Err(e) = ok {
                    return Err(format!("step {s}: on another thread, {e}"));
                }
                let d2 = if c.is_2d() { c.dot_mv(&Arr::ones(c.cols())) } else { &c * 2.0 };
                let bits = |a: &Arr| a.data().iter().map(|x| x.to_bits()).collect::<Vec<_>>();
                let nanless = m.d.iter().all(|x| !x.is_nan());
                ensure!(ctx, !nanless || bits(&d) == bits(&d2), "step {s}: the same operation on another thread gives another answer");
                pop[i].a = c;
            } else if ctx.chance(1, 2) {
                // the copy overwrites something else: another array, or one of as many elements
                ctx.fault("copied over an older array");
                let mut old = match ctx.pick(4) {
                    0 if n > 0 => Arr::zeros(n, 1),
                    1 if n > 0 => Arr::zeros(1, n),
                    2 if n > 0 => Arr::ones(n),
                    _ => {
                        let j = ctx.idx(pop.len());
                        pop[j].a.clone()
                    }
                };
                old.clone_from(&pop[i].a);
                pop[i].a = old;
            } else {
                ctx.fault("original dropped, copy carries on");
                pop[i].a = c;
            }
            ev!(ctx, "{s}: array {i} replaced by a copy");
        }
        _ => {
            // operations that must be refused, leaving everything as it was
            let kind = ctx.idx(20);
            ctx.sym(kind as u64);
            let fewer = n > 1 && (kind < 6 || (13..16).contains(&kind)) && ctx.chance(1, 2);
            let other = vector(ctx, if fewer { n / 2 } else { n + 1 + ctx_small(&m) });
            let it = &mut pop[i];
            let (name, r) = match kind {
                0 => ("adding an array of another size", refused(|| &it.a + &other.a)),
                1 => ("subtracting an array of another size", refused(|| &it.a - &other.a)),
                2 => ("multiplying with an array of another size", refused(|| &it.a * &other.a)),
                3 => ("adding an array of another size in place", refused(|| it.a += &other.a)),
                4 => ("subtracting an array of another size in place", refused(|| it.a -= &other.a)),
                5 => ("copying from an array of another size", refused(|| it.a.copy_from(&other.a))),
                6 if m.is_vec() => ("dot product with a vector of another size", refused(|| it.a.dot(&other.a))),
                6 => ("dot product of a matrix", refused(|| it.a.dot(&it.a))),
                7 if m.is_vec() => ("vector as a matrix times a vector", refused(|| it.a.dot_mv(&it.a))),
                7 => ("matrix times a vector of another size", refused(|| it.a.dot_mv(&other.a))),
                8 if m.is_vec() => ("row of a vector", refused(|| it.a.row(0))),
                8 => ("row out of range", refused(|| it.a.row(m.rows))),
                9 if m.is_vec() => ("rank-one update of a vector", refused(|| it.a.rank_one_update(1.0, &other.a))),
                9 => ("rank-one update by a vector of another size", refused(|| it.a.rank_one_update(1.0, &other.a))),
                10 if m.is_vec() => ("a list that does not fill the shape", refused(|| Arr::from_shape_vec(n + 1, 2, m.d.clone()))),
                10 => ("a matrix as a diagonal", refused(|| Arr::from_diag(&it.a))),
                11 if !m.is_vec() && m.rows != m.cols => {
                    let u = Arr::ones(m.rows);
                    ("rank-one update of a rectangular matrix", refused(|| it.a.rank_one_update(1.5, &u)))
                }
                11 => ("a list that does not fill the shape", refused(|| Arr::with_data(m.d.clone(), n + 1, 2))),
                13 => ("adding an array of another size to an owned one", refused(|| it.a.clone() + &other.a)),
                14 => ("subtracting an array of another size from an owned one", refused(|| it.a.clone() - &other.a)),
                15 => ("multiplying an owned array with one of another size", refused(|| it.a.clone() * &other.a)),
                16 if m.is_vec() => ("outer product of a vector and a matrix", refused(|| it.a.outer(&Arr::eye(2)))),
                16 => ("outer product of a matrix and a vector", refused(|| it.a.outer(&other.a))),
                18 if m.is_vec() && n > 0 => ("dot product of a vector and a matrix", refused(|| it.a.dot(&Arr::zeros(1, n)))),
                18 if !m.is_vec() && m.rows > 0 && m.rows == m.cols => ("rank-one update by a matrix as if it were a vector", refused(|| it.a.rank_one_update(1.0, &Arr::ones(m.rows).outer(&Arr::ones(1))))),
                17 if !m.is_vec() && m.cols > 0 => ("matrix times a matrix as if it were a vector", refused(|| it.a.dot_mv(&Arr::zeros(1, m.cols)))),
                17 => ("outer product of a matrix and a vector", refused(|| Arr::eye(2).outer(&it.a))),
                _ => ("an element beyond the end", refused(|| it.a[n] = 1.0)),
            };
            ev!(ctx, "{s}: array {i}: {name}");
            ctx.fault("refused operation");
            ensure!(ctx, r, "step {s}: {name} was not refused ({})", m.shape());
            if let Err(e) = same(&other.a, &other.m) {
                return Err(format!("step {s}: {name} changed the other array: {e}"));
            }
        }
    }
    if let Some(f) = fresh {
        match ctx.idx(3) {
            0 if pop.len() < 6 && f.m.d.len() <= 400 => pop.push(f),
            1 if f.m.d.len() <= 400 => pop[i] = f,
            _ => {}
        }
    }
    // huge or tiny numbers would only test the exponent range
    for it in pop.iter_mut() {
        for k in 0..it.m.d.len() {
            let x = it.m.d[k];
            if x.is_finite() && x != 0.0 && !(1e-90..1e90).contains(&x.abs()) {
                it.m.d[k] = 1.0;
                it.a[k] = 1.0;
            }
        }
    }
    Ok(())
}

fn ctx_small(m: &Model) -> usize {
    m.rows % 3
}

fn hash_shape(m: &Model) -> u64 {
    (m.rows * 1000 + m.cols) as u64
}

fn c19(ctx: &mut Ctx) -> Outcome {
    let mut pop: Vec<Item> = Vec::new();
    let steps = if ctx.deep { ctx.range(2, 80) } else { ctx.range(2, 30) };
    for s in 0..steps {
        step(ctx, &mut pop, s)?;
        for (j, it) in pop.iter().enumerate() {
            if let Err(e) = same(&it.a, &it.m) {
                return Err(format!("step {s}: array {j} changed although nothing wrote it, or differs from what was written: {e}"));
            }
        }
        if !pop.is_empty() && ctx.chance(1, 4) {
            let j = ctx.idx(pop.len());
            accessors(ctx, &pop[j].a, &pop[j].m, &format!("step {s}: array {j}"))?;
        }
    }
    ctx.nontrivial = steps > 2;
    Ok(())
}

pub const C19: Prop = Prop {
    id: "C19", run: c19, quick: 1500000, thorough: 40000000,
    rule: "one run = up to six vectors and matrices under a history of 2-30 constructions, operator forms, products, reductions, maps, writes, copies, thread moves, refused operations and panicking user functions; every result compared with the textbook and, after every step, every array of the population with what it must hold; non-trivial with more than two steps; distinct by operations, forms, shapes and faults",
    measure: "hash of operation, form, shape of the operand per step, and faults",
    real: "Arr and all functions of src/arr.rs", stub: "none",
    assumptions: &["operands of one operation have the same shape or different sizes (equal sizes with different shapes left open)", "rank-one updates of symmetric matrices", "products and sums with non-finite operands left open", "spans of arange are whole numbers"],
};
