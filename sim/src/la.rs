//! Independent small dense linear algebra (nothing here comes from the crate under test).
pub type V = Vec<f64>;
/// row-major square matrix
#[derive(Clone, Debug)]
pub struct Mat {
    pub n: usize,
    pub a: Vec<f64>,
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}
pub fn sub(a: &[f64], b: &[f64]) -> V {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
pub fn axpy(a: &[f64], s: f64, b: &[f64]) -> V {
    a.iter().zip(b).map(|(x, y)| x + s * y).collect()
}
pub fn scale(a: &[f64], s: f64) -> V {
    a.iter().map(|x| x * s).collect()
}

impl Mat {
    pub fn zero(n: usize) -> Mat {
        Mat { n, a: vec![0.0; n * n] }
    }
    pub fn eye(n: usize) -> Mat {
        let mut m = Mat::zero(n);
        for i in 0..n {
            m.a[i * n + i] = 1.0;
        }
        m
    }
    pub fn diag(d: &[f64]) -> Mat {
        let mut m = Mat::zero(d.len());
        for (i, x) in d.iter().enumerate() {
            m.a[i * d.len() + i] = *x;
        }
        m
    }
    #[inline]
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.a[i * self.n + j]
    }
    #[inline]
    pub fn set(&mut self, i: usize, j: usize, v: f64) {
        self.a[i * self.n + j] = v
    }
    pub fn mv(&self, x: &[f64]) -> V {
        (0..self.n).map(|i| dot(&self.a[i * self.n..(i + 1) * self.n], x)).collect()
    }
    pub fn mul(&self, b: &Mat) -> Mat {
        let n = self.n;
        let mut c = Mat::zero(n);
        for i in 0..n {
            for k in 0..n {
                let v = self.at(i, k);
                if v != 0.0 {
                    for j in 0..n {
                        c.a[i * n + j] += v * b.a[k * n + j];
                    }
                }
            }
        }
        c
    }
    pub fn t(&self) -> Mat {
        let mut c = Mat::zero(self.n);
        for i in 0..self.n {
            for j in 0..self.n {
                c.set(j, i, self.at(i, j));
            }
        }
        c
    }
    pub fn scaled(&self, s: f64) -> Mat {
        Mat { n: self.n, a: self.a.iter().map(|x| x * s).collect() }
    }
    pub fn quad(&self, v: &[f64]) -> f64 {
        dot(v, &self.mv(v))
    }
    /// lower Cholesky factor, None if not numerically positive definite
    pub fn chol(&self) -> Option<Mat> {
        let n = self.n;
        let mut l = Mat::zero(n);
        for j in 0..n {
            let mut d = self.at(j, j);
            for k in 0..j {
                d -= l.at(j, k) * l.at(j, k);
            }
            if !(d > 0.0) || !d.is_finite() {
                return None;
            }
            let r = d.sqrt();
            l.set(j, j, r);
            for i in j + 1..n {
                let mut s = self.at(i, j);
                for k in 0..j {
                    s -= l.at(i, k) * l.at(j, k);
                }
                l.set(i, j, s / r);
            }
        }
        Some(l)
    }
    /// solve L y = b for lower-triangular self
    pub fn fsolve(&self, b: &[f64]) -> V {
        let n = self.n;
        let mut y = b.to_vec();
        for i in 0..n {
            let mut s = y[i];
            for k in 0..i {
                s -= self.at(i, k) * y[k];
            }
            y[i] = s / self.at(i, i);
        }
        y
    }
    /// eigenvalues and orthonormal eigenvectors (columns) of a symmetric matrix, cyclic Jacobi
    pub fn eig(&self) -> (V, Mat) {
        let n = self.n;
        let mut a = self.clone();
        let mut q = Mat::eye(n);
        for _ in 0..60 {
            let mut off = 0.0;
            let mut tot = 0.0;
            for i in 0..n {
                for j in 0..n {
                    let v = a.at(i, j) * a.at(i, j);
                    tot += v;
                    if i != j {
                        off += v;
                    }
                }
            }
            if !(off > 1e-30 * tot) {
                break;
            }
            for p in 0..n {
                for r in p + 1..n {
                    let apr = a.at(p, r);
                    if apr == 0.0 {
                        continue;
                    }
                    let th = (a.at(r, r) - a.at(p, p)) / (2.0 * apr);
                    let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                    let t = if th == 0.0 { 1.0 } else { t };
                    let c = 1.0 / (t * t + 1.0).sqrt();
                    let s = t * c;
                    for k in 0..n {
                        let (x, y) = (a.at(k, p), a.at(k, r));
                        a.set(k, p, c * x - s * y);
                        a.set(k, r, s * x + c * y);
                    }
                    for k in 0..n {
                        let (x, y) = (a.at(p, k), a.at(r, k));
                        a.set(p, k, c * x - s * y);
                        a.set(r, k, s * x + c * y);
                    }
                    for k in 0..n {
                        let (x, y) = (q.at(k, p), q.at(k, r));
                        q.set(k, p, c * x - s * y);
                        q.set(k, r, s * x + c * y);
                    }
                }
            }
        }
        ((0..n).map(|i| a.at(i, i)).collect(), q)
    }
    pub fn cond_sym(&self) -> f64 {
        let (e, _) = self.eig();
        let mx = e.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let mn = e.iter().cloned().fold(f64::INFINITY, f64::min);
        if mn > 0.0 { mx / mn } else { f64::INFINITY }
    }
}

/// whiten: L^-1 A L^-T for lower L
pub fn whiten(l: &Mat, a: &Mat) -> Mat {
    let n = l.n;
    // X = L^-1 A  (columns)
    let mut x = Mat::zero(n);
    for j in 0..n {
        let col: V = (0..n).map(|i| a.at(i, j)).collect();
        let y = l.fsolve(&col);
        for i in 0..n {
            x.set(i, j, y[i]);
        }
    }
    // Y = X L^-T  => Y^T = L^-1 X^T
    let mut yt = Mat::zero(n);
    for j in 0..n {
        let col: V = (0..n).map(|i| x.at(j, i)).collect();
        let y = l.fsolve(&col);
        for i in 0..n {
            yt.set(i, j, y[i]);
        }
    }
    // symmetrise
    let mut r = Mat::zero(n);
    for i in 0..n {
        for j in 0..n {
            r.set(i, j, 0.5 * (yt.at(i, j) + yt.at(j, i)));
        }
    }
    r
}

/// orthonormal basis whose first vector is `a` (unit); the rest seeded by `seed` vectors
pub fn basis_from(a: &[f64], seeds: &[V]) -> Vec<V> {
    let n = a.len();
    let mut b: Vec<V> = vec![a.to_vec()];
    let mut cands: Vec<V> = seeds.to_vec();
    for i in 0..n {
        let mut e = vec![0.0; n];
        e[i] = 1.0;
        cands.push(e);
    }
    for c in cands {
        if b.len() == n {
            break;
        }
        let mut v = c.clone();
        for _ in 0..2 {
            for q in &b {
                let s = dot(&v, q);
                v = axpy(&v, -s, q);
            }
        }
        let m = norm(&v);
        if m > 1e-6 * norm(&c).max(1e-300) && m > 0.0 {
            b.push(scale(&v, 1.0 / m));
        }
    }
    b
}

/// ln volume of the unit n-ball
pub fn ln_ball_vol(n: usize) -> f64 {
    let mut lv = [0.0, 2f64.ln()]; // V0 = 1, V1 = 2
    if n < 2 {
        return lv[n];
    }
    for k in 2..=n {
        lv[k % 2] += (2.0 * std::f64::consts::PI / k as f64).ln();
    }
    lv[n % 2]
}
