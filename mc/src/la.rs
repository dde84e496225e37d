//! Small dense linear algebra, independent of the implementation's.

#[derive(Clone, Debug, PartialEq)]
pub struct Mat {
    pub n: usize,
    pub a: Vec<f64>, // row major
}

impl Mat {
    pub fn zeros(n: usize) -> Mat {
        Mat { n, a: vec![0.0; n * n] }
    }
    pub fn id(n: usize) -> Mat {
        let mut m = Mat::zeros(n);
        for i in 0..n {
            m.a[i * n + i] = 1.0;
        }
        m
    }
    #[inline]
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.a[i * self.n + j]
    }
    #[inline]
    pub fn set(&mut self, i: usize, j: usize, v: f64) {
        self.a[i * self.n + j] = v;
    }
    pub fn mv(&self, x: &[f64]) -> Vec<f64> {
        (0..self.n)
            .map(|i| (0..self.n).map(|j| self.at(i, j) * x[j]).sum())
            .collect()
    }
    pub fn max_abs(&self) -> f64 {
        self.a.iter().fold(0.0, |m, x| if x.is_nan() { f64::NAN } else { m.max(x.abs()) })
    }
    pub fn finite(&self) -> bool {
        self.a.iter().all(|x| x.is_finite())
    }
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

pub fn norm(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}

pub fn max_abs(a: &[f64]) -> f64 {
    a.iter().fold(0.0, |m, x| m.max(x.abs()))
}

/// Cyclic Jacobi eigendecomposition of a symmetric matrix: (eigenvalues, eigenvectors as columns)
pub fn jacobi(m: &Mat) -> (Vec<f64>, Mat) {
    let n = m.n;
    let mut a = m.clone();
    let mut v = Mat::id(n);
    for _ in 0..60 {
        let mut off = 0.0;
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    off += a.at(i, j).abs();
                }
            }
        }
        if off == 0.0 || !off.is_finite() {
            break;
        }
        for p in 0..n {
            for q in (p + 1)..n {
                let apq = a.at(p, q);
                if apq == 0.0 {
                    continue;
                }
                let (app, aqq) = (a.at(p, p), a.at(q, q));
                if apq.abs() < 1e-18 * (app.abs() * aqq.abs()).sqrt() {
                    a.set(p, q, 0.0);
                    a.set(q, p, 0.0);
                    continue;
                }
                let theta = (aqq - app) / (2.0 * apq);
                let t = if theta.abs() > 1e150 {
                    0.5 / theta
                } else {
                    theta.signum() / (theta.abs() + (theta * theta + 1.0).sqrt())
                };
                let t = if theta == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a.at(k, p), a.at(k, q));
                    a.set(k, p, c * x - s * y);
                    a.set(k, q, s * x + c * y);
                }
                for k in 0..n {
                    let (x, y) = (a.at(p, k), a.at(q, k));
                    a.set(p, k, c * x - s * y);
                    a.set(q, k, s * x + c * y);
                }
                a.set(p, q, 0.0);
                a.set(q, p, 0.0);
                for k in 0..n {
                    let (x, y) = (v.at(k, p), v.at(k, q));
                    v.set(k, p, c * x - s * y);
                    v.set(k, q, s * x + c * y);
                }
            }
        }
    }
    ((0..n).map(|i| a.at(i, i)).collect(), v)
}

/// V f(D) V^T
pub fn fun(vals: &[f64], v: &Mat, f: impl Fn(f64) -> f64) -> Mat {
    let n = v.n;
    let mut r = Mat::zeros(n);
    let d: Vec<f64> = vals.iter().map(|x| f(*x)).collect();
    for i in 0..n {
        for j in 0..n {
            let mut s = 0.0;
            for k in 0..n {
                s += v.at(i, k) * d[k] * v.at(j, k);
            }
            r.set(i, j, s);
        }
    }
    r
}
