//! Reference model of CMA-ES, written from the published definition (Hansen, "The CMA Evolution Strategy: A Tutorial",
//! with this crate's documented a_cov = 2), run in lock step with the implementation.

use crate::la::*;
use crate::sim::{Call, Snap};
use cmaes::Weights;

#[derive(Clone, Debug)]
pub struct Par {
    pub n: usize,
    pub lambda: usize,
    pub mu: usize,
    pub w: Vec<f64>,
    pub mueff: f64,
    pub cc: f64,
    pub c1: f64,
    pub cs: f64,
    pub cmu: f64,
    pub cm: f64,
    pub damps: f64,
    pub chi: f64,
    /// evaluations between refreshes of the decomposition (before rounding up)
    pub refresh: f64,
}

pub fn params(n: usize, lambda: usize, setting: Weights, cm: f64) -> Par {
    let nf = n as f64;
    let mu = lambda / 2;
    let raw: Vec<f64> = (1..=lambda)
        .map(|i| match setting {
            Weights::Uniform => {
                if i <= mu {
                    1.0
                } else {
                    0.0
                }
            }
            _ => {
                let v = ((lambda as f64 + 1.0) / 2.0).ln() - (i as f64).ln();
                if i > mu && setting == Weights::Positive {
                    0.0
                } else {
                    v
                }
            }
        })
        .collect();
    let sp: f64 = raw[..mu].iter().sum();
    let sp2: f64 = raw[..mu].iter().map(|x| x * x).sum();
    let mueff = sp * sp / sp2;
    let cc = (4.0 + mueff / nf) / (nf + 4.0 + 2.0 * mueff / nf);
    let c1 = 2.0 / ((nf + 1.3).powi(2) + mueff);
    let cmu = (1.0 - c1).min(2.0 * (mueff - 2.0 + 1.0 / mueff) / ((nf + 2.0).powi(2) + mueff));
    let cs = (mueff + 2.0) / (nf + mueff + 5.0);
    let damps = 1.0 + cs + 2.0 * (((mueff - 1.0) / (nf + 1.0)).sqrt() - 1.0).max(0.0);
    let mut w = raw.clone();
    let pos: f64 = raw.iter().filter(|x| **x > 0.0).sum();
    let negs: Vec<f64> = raw[mu..].to_vec();
    let sn: f64 = negs.iter().sum();
    let sn2: f64 = negs.iter().map(|x| x * x).sum();
    for x in w.iter_mut() {
        if *x > 0.0 {
            *x /= pos;
        }
    }
    if setting == Weights::Negative {
        let mueff_minus = sn * sn / sn2;
        let a = (1.0 + c1 / cmu)
            .min(1.0 + 2.0 * mueff_minus / (mueff + 2.0))
            .min((1.0 - c1 - cmu) / (nf * cmu));
        let s: f64 = raw.iter().filter(|x| **x < 0.0).map(|x| x.abs()).sum();
        for x in w.iter_mut() {
            if *x < 0.0 {
                *x *= a / s;
            }
        }
    } else {
        w.truncate(mu);
    }
    let chi = nf.sqrt() * (1.0 - 1.0 / (4.0 * nf) + 1.0 / (21.0 * nf * nf));
    let refresh = 0.5 * nf * lambda as f64 / ((c1 + cmu) * nf * nf);
    Par { n, lambda, mu, w, mueff, cc, c1, cs, cmu, cm, damps, chi, refresh }
}

#[derive(Clone, Debug)]
pub struct Model {
    pub p: Par,
    pub maximize: bool,
    /// covariance at the last refresh and its symmetric inverse root
    pub ce: Mat,
    pub isq: Mat,
    pub evals_e: Vec<f64>,
    pub vecs_e: Mat,
    pub identity: bool,
    pub ps: Vec<f64>,
    pub pc: Vec<f64>,
    pub ps_err: f64,
    pub pc_err: f64,
    pub last_refresh: usize,
    pub gen: usize,
    /// the comparison became meaningless (overflow, extreme conditioning)
    pub lost: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum What {
    Mean,
    Sigma,
    Cov,
    Eig,
    Refresh,
}

#[derive(Clone, Debug)]
pub struct Disc {
    pub what: What,
    pub msg: String,
}

struct Pred {
    mean: Vec<f64>,
    mean_tol: f64,
    sigma: f64,
    sigma_tol: f64,
    cov: Mat,
    cov_tol: f64,
    ps: Vec<f64>,
    pc: Vec<f64>,
    ps_err: f64,
    pc_err: f64,
}

const EPS: f64 = 2.220446049250313e-16;

impl Model {
    pub fn new(p: Par, maximize: bool) -> Model {
        let n = p.n;
        Model {
            p,
            maximize,
            ce: Mat::id(n),
            isq: Mat::id(n),
            evals_e: vec![1.0; n],
            vecs_e: Mat::id(n),
            identity: true,
            ps: vec![0.0; n],
            pc: vec![0.0; n],
            ps_err: 0.0,
            pc_err: 0.0,
            last_refresh: 0,
            gen: 0,
            lost: false,
        }
    }

    fn cond(&self) -> f64 {
        let mx = self.evals_e.iter().cloned().fold(f64::MIN, f64::max);
        let mn = self.evals_e.iter().cloned().fold(f64::MAX, f64::min);
        if mn > 0.0 {
            mx / mn
        } else {
            f64::INFINITY
        }
    }

    fn predict(&self, before: &Snap, calls: &[Call], order: &[usize], hs_flip: bool) -> (Pred, bool) {
        let p = &self.p;
        let n = p.n;
        let s = before.sigma;
        let m = &before.mean;
        let ys: Vec<Vec<f64>> = order
            .iter()
            .map(|&i| calls[i].x.iter().zip(m).map(|(x, m)| (x - m) / s).collect())
            .collect();
        let xm = calls.iter().map(|c| max_abs(&c.x)).fold(0.0, f64::max).max(max_abs(m));
        let ymax = ys.iter().map(|y| norm(y)).fold(0.0, f64::max);
        let yerr = 4.0 * EPS * (xm / s + ymax) * (n as f64).sqrt();
        let cond = self.cond();
        let kap = 64.0 * EPS * cond * n as f64; // error of our / their inverse root, relative
        let isq_norm = 1.0 / self.evals_e.iter().cloned().fold(f64::MAX, f64::min).sqrt();
        let mut yw = vec![0.0; n];
        for k in 0..p.mu {
            for d in 0..n {
                yw[d] += p.w[k] * ys[k][d];
            }
        }
        let mean: Vec<f64> = (0..n).map(|d| m[d] + p.cm * s * yw[d]).collect();
        let mean_tol = 32.0 * EPS * (xm + s * ymax) + p.cm * s * yerr;
        let z = self.isq.mv(&yw);
        let zerr = isq_norm * yerr + norm(&z) * kap + 1e-13 * norm(&z);
        let a = (p.cs * (2.0 - p.cs) * p.mueff).sqrt();
        let ps: Vec<f64> = (0..n).map(|d| (1.0 - p.cs) * self.ps[d] + a * z[d]).collect();
        let ps_err = (1.0 - p.cs) * self.ps_err + a * zerr + 1e-15;
        let l = norm(&ps);
        let crit = l / (1.0 - (1.0 - p.cs).powf(2.0 * (self.gen as f64 + 1.0))).sqrt();
        let thr = (1.4 + 2.0 / (n as f64 + 1.0)) * p.chi;
        let border = (crit - thr).abs() <= 1e-7 * thr + 4.0 * ps_err / (p.cs).sqrt();
        let mut hs = if crit < thr { 1.0 } else { 0.0 };
        if hs_flip {
            hs = 1.0 - hs;
        }
        let b = (p.cc * (2.0 - p.cc) * p.mueff).sqrt();
        let pc: Vec<f64> = (0..n).map(|d| (1.0 - p.cc) * self.pc[d] + hs * b * yw[d]).collect();
        let pc_err = (1.0 - p.cc) * self.pc_err + b * yerr + 1e-15 * norm(&pc);
        let sigma = s * ((p.cs / p.damps) * (l / p.chi - 1.0)).exp();
        let sigma_tol = sigma * (1e-11 + 2.0 * p.cs / p.damps * ps_err / p.chi);
        let sw: f64 = p.w.iter().sum();
        let dh = (1.0 - hs) * p.cc * (2.0 - p.cc);
        let c0 = 1.0 + p.c1 * dh - p.c1 - p.cmu * sw;
        let mut cov = Mat::zeros(n);
        let mut abs = before.cov.max_abs() + p.c1 * dot(&pc, &pc);
        let mut err = p.c1 * 2.0 * norm(&pc) * pc_err;
        let mut wc = vec![0.0; p.w.len()];
        for (k, w) in p.w.iter().enumerate() {
            wc[k] = *w;
            let y2 = dot(&ys[k], &ys[k]);
            let mut rel = 2.0 * yerr / y2.sqrt().max(1e-300);
            if *w < 0.0 {
                let zi = norm(&self.isq.mv(&ys[k]));
                wc[k] *= n as f64 / (zi * zi);
                rel += 2.0 * (isq_norm * yerr / zi + kap);
            }
            let t = p.cmu * wc[k].abs() * y2;
            abs += t;
            err += t * rel;
        }
        for i in 0..n {
            for j in 0..n {
                let mut v = c0 * before.cov.at(i, j) + p.c1 * pc[i] * pc[j];
                for k in 0..p.w.len() {
                    v += p.cmu * wc[k] * ys[k][i] * ys[k][j];
                }
                cov.set(i, j, v);
            }
        }
        let cov_tol = 1e-11 * abs + 2.0 * err;
        (
            Pred { mean, mean_tol, sigma, sigma_tol, cov, cov_tol, ps, pc, ps_err, pc_err },
            border,
        )
    }

    fn compare(&self, q: &Pred, after: &Snap) -> Vec<Disc> {
        let mut r = vec![];
        let n = self.p.n;
        for d in 0..n {
            let e = (q.mean[d] - after.mean[d]).abs();
            if !(e <= q.mean_tol) {
                r.push(Disc {
                    what: What::Mean,
                    msg: format!("mean[{}] = {:e}, expected {:e} (tolerance {:e})", d, after.mean[d], q.mean[d], q.mean_tol),
                });
                break;
            }
        }
        if !((q.sigma - after.sigma).abs() <= q.sigma_tol) {
            r.push(Disc {
                what: What::Sigma,
                msg: format!("sigma = {:e}, expected {:e} (tolerance {:e})", after.sigma, q.sigma, q.sigma_tol),
            });
        }
        'o: for i in 0..n {
            for j in 0..n {
                let e = (q.cov.at(i, j) - after.cov.at(i, j)).abs();
                if !(e <= q.cov_tol) {
                    r.push(Disc {
                        what: What::Cov,
                        msg: format!(
                            "cov[{},{}] = {:e}, expected {:e} (tolerance {:e})",
                            i, j, after.cov.at(i, j), q.cov.at(i, j), q.cov_tol
                        ),
                    });
                    break 'o;
                }
            }
        }
        r
    }

    /// Consumes one generation. `posdef_abort` tells whether the implementation ended the step with PosDefCov.
    /// Returns discrepancies between model and implementation.
    pub fn step(&mut self, before: &Snap, calls: &[Call], after: &Snap, posdef_abort: bool) -> Vec<Disc> {
        let d = self.step_compared(before, calls, after, posdef_abort);
        // the first refresh ends the time of the initial axes, whether or not the numbers can be followed
        if self.lost && (after.evals - self.last_refresh) as f64 >= self.p.refresh * (1.0 - 1e-9) - 1.0 {
            self.identity = false;
        }
        d
    }

    fn step_compared(&mut self, before: &Snap, calls: &[Call], after: &Snap, posdef_abort: bool) -> Vec<Disc> {
        if self.lost {
            self.gen = after.gen;
            return vec![];
        }
        if !before.finite() || before.sigma <= 0.0 || calls.len() != self.p.lambda || self.cond() > 1e13 || self.evals_e.iter().any(|x| *x < 1e-290) {
            self.lost = true;
            self.gen = after.gen;
            return vec![];
        }
        let mut order: Vec<usize> = (0..calls.len()).collect();
        let sgn = if self.maximize { -1.0 } else { 1.0 };
        order.sort_by(|&a, &b| (sgn * calls[a].f).partial_cmp(&(sgn * calls[b].f)).unwrap());
        let (pred, border) = self.predict(before, calls, &order, false);
        // deviations may be meaningless when precision is exhausted
        let fin = pred.mean.iter().all(|x| x.is_finite()) && pred.sigma.is_finite() && pred.cov.finite();
        if !fin || pred.cov_tol > 1e-2 * pred.cov.max_abs() || pred.sigma_tol > 1e-3 * pred.sigma || pred.sigma < 1e-290 || max_abs(&pred.mean) > 1e290 {
            self.lost = true;
            self.gen = after.gen;
            return vec![];
        }
        let mut d = self.compare(&pred, after);
        let mut acc = pred;
        if !d.is_empty() && border {
            let (p2, _) = self.predict(before, calls, &order, true);
            let d2 = self.compare(&p2, after);
            if d2.is_empty() {
                d = d2;
                acc = p2;
            }
        }
        if !d.is_empty() {
            // the order among tied values is not specified: accept any
            if let Some(perms) = tie_orders(&order, calls, 6000) {
                for o in perms {
                    let (p2, b2) = self.predict(before, calls, &o, false);
                    if self.compare(&p2, after).is_empty() {
                        d = vec![];
                        acc = p2;
                        break;
                    }
                    if b2 {
                        let (p3, _) = self.predict(before, calls, &o, true);
                        if self.compare(&p3, after).is_empty() {
                            d = vec![];
                            acc = p3;
                            break;
                        }
                    }
                }
            } else {
                // too many ties to decide
                self.lost = true;
                self.gen = after.gen;
                return vec![];
            }
        }
        self.ps = acc.ps;
        self.pc = acc.pc;
        self.ps_err = acc.ps_err;
        self.pc_err = acc.pc_err;
        // Refresh schedule
        let r = self.p.refresh;
        let due_min = (r - 1e-9 * r).ceil() as usize;
        let due_max = (r + 1e-9 * r).ceil() as usize;
        let passed = after.evals - self.last_refresh;
        let must = passed >= due_max;
        let may = passed >= due_min;
        if posdef_abort {
            if !may {
                d.push(Disc { what: What::Refresh, msg: "PosDefCov although no refresh was due".into() });
            }
            self.gen = after.gen;
            // the old decomposition stays in use
            return d;
        }
        let old_ok = self.eig_matches(&self.evals_e, after);
        if may {
            let (vals, vecs) = jacobi(&after.cov);
            let new_ok = self.eig_matches(&vals, after);
            let refreshed = if must { true } else { new_ok };
            if refreshed {
                if !new_ok {
                    d.push(Disc {
                        what: if old_ok { What::Refresh } else { What::Eig },
                        msg: format!(
                            "after {} evaluations since the last refresh (due at {}), eigenvalues {:?} are not those of the covariance {:?}{}",
                            passed, due_max, after.eig, vals, if old_ok { " but of the previous refresh" } else { "" }
                        ),
                    });
                }
                self.ce = after.cov.clone();
                self.isq = fun(&vals, &vecs, |x| 1.0 / x.sqrt());
                self.evals_e = vals;
                self.vecs_e = vecs;
                self.identity = false;
                self.last_refresh = after.evals;
                if self.evals_e.iter().any(|x| !(*x > 0.0)) {
                    self.lost = true;
                }
            } else if !old_ok {
                d.push(Disc { what: What::Eig, msg: format!("eigenvalues {:?}, expected {:?}", after.eig, self.evals_e) });
            }
        } else if !old_ok {
            let (vals, _) = jacobi(&after.cov);
            let early = self.eig_matches(&vals, after);
            d.push(Disc {
                what: if early { What::Refresh } else { What::Eig },
                msg: format!(
                    "eigenvalues changed {} evaluations after the last refresh (due at {}): {:?}, expected {:?}",
                    passed, due_max, after.eig, self.evals_e
                ),
            });
        }
        self.gen += 1;
        d
    }

    fn eig_matches(&self, vals: &[f64], after: &Snap) -> bool {
        let mut a = vals.to_vec();
        let mut b = after.eig.clone();
        if a.iter().chain(&b).any(|x| x.is_nan()) {
            return false;
        }
        a.sort_by(|x, y| x.partial_cmp(y).unwrap());
        b.sort_by(|x, y| x.partial_cmp(y).unwrap());
        if a.len() != b.len() {
            return false;
        }
        let mx = a.iter().cloned().fold(0.0f64, |m, x| m.max(x.abs()));
        a.iter().zip(&b).all(|(x, y)| (x - y).abs() <= 1e-12 * self.p.n as f64 * mx + 1e-11 * x.abs())
    }
}

/// All orders compatible with the values that differ from the stable one only within ties
fn tie_orders(order: &[usize], calls: &[Call], cap: usize) -> Option<Vec<Vec<usize>>> {
    let mut groups: Vec<Vec<usize>> = vec![];
    for &i in order {
        if let Some(g) = groups.last_mut() {
            if calls[g[0]].f == calls[i].f {
                g.push(i);
                continue;
            }
        }
        groups.push(vec![i]);
    }
    let mut total = 1usize;
    for g in &groups {
        for k in 1..=g.len() {
            total = total.saturating_mul(k);
            if total > cap {
                return None;
            }
        }
    }
    if total == 1 {
        return Some(vec![]);
    }
    let mut res: Vec<Vec<usize>> = vec![vec![]];
    for g in &groups {
        let ps = crate::sim::permutations(g.len());
        let mut nr = Vec::with_capacity(res.len() * ps.len());
        for r in &res {
            for p in &ps {
                let mut v = r.clone();
                v.extend(p.iter().map(|&k| g[k]));
                nr.push(v);
            }
        }
        res = nr;
    }
    Some(res)
}
