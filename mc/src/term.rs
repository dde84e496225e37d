//! Oracle for the termination criteria, written from their documentation.

use crate::model::Model;
use crate::sim::*;
use std::collections::VecDeque;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum V {
    Must,
    Not,
    Either,
}

pub fn v(b: bool) -> V {
    if b {
        V::Must
    } else {
        V::Not
    }
}

const CAP: usize = 20_000;

pub struct Term {
    pub cfg: Cfg,
    pub max: bool,
    /// newest first
    pub best: VecDeque<f64>,
    pub med: VecDeque<f64>,
    pub first_med: Option<f64>,
    pub best_med: Option<f64>,
    pub evals: u64,
    pub gens: u64,
    /// elapsed virtual time
    pub elapsed: u128,
    pub model: Option<Model>,
}

pub fn median(xs: &[f64]) -> f64 {
    let mut a = xs.to_vec();
    a.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let n = a.len();
    if n == 0 {
        return f64::NAN;
    }
    if n % 2 == 1 {
        a[n / 2]
    } else {
        let (x, y) = (a[n / 2 - 1], a[n / 2]);
        // the mean of two finite values is finite
        if x.is_finite() && y.is_finite() && (x + y).is_infinite() {
            x / 2.0 + y / 2.0
        } else {
            (x + y) / 2.0
        }
    }
}

fn range(xs: impl Iterator<Item = f64>) -> f64 {
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for x in xs {
        lo = lo.min(x);
        hi = hi.max(x);
    }
    hi - lo
}

/// "range below tolerance"; NaN range (all values the same infinity) is left open
fn below(r: f64, tol: f64) -> V {
    if r.is_nan() || tol.is_nan() {
        V::Either
    } else {
        v(r < tol)
    }
}

fn and(a: V, b: V) -> V {
    match (a, b) {
        (V::Not, _) | (_, V::Not) => V::Not,
        (V::Must, V::Must) => V::Must,
        _ => V::Either,
    }
}

pub const ALL: [TR; 14] = [
    TR::MaxFunctionEvals,
    TR::MaxGenerations,
    TR::MaxTime,
    TR::FunTarget,
    TR::TolFun,
    TR::TolFunRel,
    TR::TolFunHist,
    TR::TolX,
    TR::TolStagnation,
    TR::TolXUp,
    TR::NoEffectAxis,
    TR::NoEffectCoord,
    TR::TolConditionCov,
    TR::InvalidFunctionValue,
];

/// Quantities the tolerances are compared with
#[derive(Clone, Debug, Default)]
pub struct Crit {
    /// per coordinate sigma * sqrt(C_ii), |sigma * pc_i|
    pub sd: Vec<f64>,
    pub path: Vec<f64>,
    pub path_err: f64,
    pub known_path: bool,
    pub axis_up: f64,
    pub cond: f64,
}

impl Term {
    pub fn new(cfg: &Cfg, with_model: bool) -> Term {
        Term {
            cfg: cfg.clone(),
            max: cfg.is_max(),
            best: VecDeque::new(),
            med: VecDeque::new(),
            first_med: None,
            best_med: None,
            evals: 0,
            gens: 0,
            elapsed: 0,
            model: if with_model { Some(crate::checks::dist::model_of(cfg)) } else { None },
        }
    }

    pub fn window(&self) -> usize {
        10 + (30 * self.cfg.dim()).div_ceil(self.cfg.lambda())
    }

    pub fn min_window(&self) -> usize {
        self.cfg.tol_stag.unwrap_or_else(|| {
            100 + (100.0 * (self.cfg.dim() as f64).powf(1.5) / self.cfg.lambda() as f64).ceil() as usize
        })
    }

    fn better(&self, a: f64, b: f64) -> bool {
        if self.max {
            a > b
        } else {
            a < b
        }
    }

    /// Records the values of a completed generation
    pub fn record(&mut self, fs: &[f64]) {
        let mut s = fs.to_vec();
        s.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let b = if self.max { s[s.len() - 1] } else { s[0] };
        let m = median(&s);
        self.best.push_front(b);
        self.best.truncate(CAP);
        self.med.push_front(m);
        self.med.truncate(CAP);
        if self.first_med.is_none() {
            self.first_med = Some(m);
        }
        match self.best_med {
            Some(o) if !self.better(m, o) => {}
            _ => self.best_med = Some(m),
        }
    }

    /// Consumes a step. Returns whether the generation was completed (criteria apply).
    pub fn step(&mut self, st: &Step) -> bool {
        self.evals += st.calls.len() as u64;
        if st.calls.iter().any(|c| c.f.is_nan()) {
            return false;
        }
        let fs: Vec<f64> = st.calls.iter().map(|c| c.f).collect();
        self.record(&fs);
        let posdef = has(&st.out, TR::PosDefCov);
        if let Some(m) = &mut self.model {
            // discrepancies of the update itself belong to other properties
            if !m.step(&st.before, &st.calls, &st.after, posdef).is_empty() {
                m.lost = true;
                m.identity = false;
            }
        }
        if posdef {
            return false;
        }
        self.gens += 1;
        true
    }

    pub fn crit(&self, s: &Snap) -> Crit {
        let n = self.cfg.dim();
        let (path, path_err, known_path) = match &self.model {
            Some(m) if !m.lost => ((0..n).map(|i| (s.sigma * m.pc[i]).abs()).collect(), s.sigma * m.pc_err * 4.0, true),
            _ => (vec![0.0; n], 0.0, false),
        };
        let mx = s.eig.iter().cloned().fold(f64::MIN, f64::max);
        let mn = s.eig.iter().cloned().fold(f64::MAX, f64::min);
        Crit {
            sd: (0..n).map(|i| s.sigma * s.cov.at(i, i).sqrt()).collect(),
            path,
            path_err,
            known_path,
            axis_up: s.sigma * mx.sqrt() / self.cfg.sigma,
            cond: mx / mn,
        }
    }

    pub fn budgets(&self) -> Vec<(TR, V)> {
        vec![
            (TR::MaxFunctionEvals, v(self.cfg.max_evals.map_or(false, |m| self.evals >= m as u64))),
            (TR::MaxGenerations, v(self.cfg.max_gens.map_or(false, |m| self.gens >= m as u64))),
            (TR::MaxTime, v(self.cfg.max_time.map_or(false, |m| self.elapsed >= m.as_nanos()))),
        ]
    }

    pub fn target(&self, fs: &[f64]) -> (TR, V) {
        let t = match self.cfg.fun_target {
            None => V::Not,
            Some(t) => v(fs.iter().any(|f| if self.max { *f >= t } else { *f <= t })),
        };
        (TR::FunTarget, t)
    }

    pub fn flat(&self, fs: &[f64]) -> Vec<(TR, V)> {
        let w = self.window();
        if self.best.len() < w {
            return vec![(TR::TolFun, V::Not), (TR::TolFunRel, V::Not), (TR::TolFunHist, V::Not)];
        }
        let rh = range(self.best.iter().take(w).cloned());
        let rc = range(fs.iter().cloned());
        let tf = self.cfg.tol_fun.unwrap_or(1e-12);
        let th = self.cfg.tol_fun_hist.unwrap_or(1e-12);
        let rel = self.cfg.tol_fun_rel.unwrap_or(0.0) * (self.first_med.unwrap() - self.best_med.unwrap()).abs();
        let (fm, bm) = (self.first_med.unwrap(), self.best_med.unwrap());
        // a difference of finite values too large to be represented
        let lost = fm.is_finite() && bm.is_finite() && (fm - bm).is_infinite();
        vec![
            (TR::TolFun, and(below(rh, tf), below(rc, tf))),
            (TR::TolFunRel, if lost { V::Either } else { and(below(rh, rel), below(rc, rel)) }),
            (TR::TolFunHist, below(rh, th)),
        ]
    }

    pub fn stagnation(&self) -> (TR, V) {
        let w = ((self.gens / 5) as usize).min(CAP);
        if w < self.min_window() || self.best.len() < w {
            return (TR::TolStagnation, V::Not);
        }
        let verdict = |sub: usize| {
            let worse = |h: &VecDeque<f64>| {
                let new: Vec<f64> = h.iter().take(sub).cloned().collect();
                let old: Vec<f64> = h.iter().take(w).skip(w - sub).cloned().collect();
                if sub == 0 {
                    return V::Not;
                }
                if new.iter().chain(&old).any(|x| x.is_nan()) {
                    return V::Either;
                }
                let (a, b) = (median(&new), median(&old));
                if a.is_nan() || b.is_nan() {
                    V::Either
                } else {
                    v(self.better(b, a))
                }
            };
            and(worse(&self.best), worse(&self.med))
        };
        let a = verdict(3 * w / 10);
        let b = verdict((0.3 * w as f64) as usize);
        (TR::TolStagnation, if a == b { a } else { V::Either })
    }

    pub fn stepsize(&self, s: &Snap) -> Vec<(TR, V)> {
        let c = self.crit(s);
        let tol = self.cfg.tol_x.unwrap_or(1e-12 * self.cfg.sigma);
        let tx = if !s.finite() || c.sd.iter().any(|x| !x.is_finite()) {
            V::Either
        } else {
            let mx = c.sd.iter().cloned().fold(0.0, f64::max);
            let sdv = band(mx, 1e-9 * mx, tol);
            let pv = if c.known_path {
                let mp = c.path.iter().cloned().fold(0.0, f64::max);
                band(mp, c.path_err + 1e-9 * mp, tol)
            } else {
                V::Either
            };
            and(sdv, pv)
        };
        let up = self.cfg.tol_x_up.unwrap_or(1e8);
        let tu = if !c.axis_up.is_finite() {
            V::Either
        } else if (c.axis_up - up).abs() <= 1e-9 * c.axis_up {
            V::Either
        } else {
            v(c.axis_up > up)
        };
        vec![(TR::TolX, tx), (TR::TolXUp, tu)]
    }

    pub fn condition(&self, s: &Snap) -> (TR, V) {
        let c = self.crit(s).cond;
        let lim = self.cfg.tol_cond.unwrap_or(1e14);
        let x = if s.eig.iter().any(|e| !e.is_finite() || *e < 1e-290 || *e > 1e290) {
            V::Either
        } else if (c - lim).abs() <= 1e-9 * c {
            V::Either
        } else {
            v(c > lim)
        };
        (TR::TolConditionCov, x)
    }

    pub fn axis(&self, s: &Snap) -> (TR, V) {
        let n = self.cfg.dim();
        let k = (self.gens % n as u64) as usize;
        let Some(m) = &self.model else { return (TR::NoEffectAxis, V::Either) };
        if (m.lost && !m.identity) || !s.finite() || s.sigma < 1e-290 {
            return (TR::NoEffectAxis, V::Either);
        }
        let mx = m.evals_e.iter().cloned().fold(f64::MIN, f64::max);
        let lam = s.eig[k];
        let (vec, delta): (Vec<f64>, f64) = if m.identity {
            ((0..n).map(|i| if i == k { 1.0 } else { 0.0 }).collect(), 0.0)
        } else {
            // the eigenvector of that eigenvalue
            let j = (0..n).min_by(|a, b| (m.evals_e[*a] - lam).abs().partial_cmp(&(m.evals_e[*b] - lam).abs()).unwrap()).unwrap();
            let gap = (0..n).filter(|i| *i != j).map(|i| (m.evals_e[i] - m.evals_e[j]).abs()).fold(f64::MAX, f64::min);
            let d = if n == 1 { 1e-14 } else { 1e-13 * n as f64 * mx / gap.max(1e-300) };
            if !(d < 1e-2) {
                return (TR::NoEffectAxis, V::Either);
            }
            ((0..n).map(|i| m.vecs_e.at(i, j)).collect(), d)
        };
        let d = 0.1 * s.sigma * lam.sqrt();
        // relative error of the eigenvalue used
        let relerr = 1e-12 + if m.identity { 0.0 } else { 1e-13 * n as f64 * mx / lam };
        let verdict = |sign: f64| {
            let mut all_no = V::Must;
            for i in 0..n {
                let t = d * vec[i].abs();
                let e = t * relerr + d * delta;
                let dir = sign * if vec[i] < 0.0 { -1.0 } else { 1.0 };
                let (lo, hi) = ((t - e).max(0.0), t + e);
                let no = |t: f64| s.mean[i] + dir * t == s.mean[i];
                // a component around zero may have either sign
                let x = if t <= e && !(s.mean[i] + hi == s.mean[i] && s.mean[i] - hi == s.mean[i]) && !m.identity {
                    V::Either
                } else if no(hi) {
                    V::Must
                } else if !no(lo) {
                    V::Not
                } else {
                    V::Either
                };
                all_no = and(all_no, x);
            }
            all_no
        };
        let (a, b) = (verdict(1.0), verdict(-1.0));
        let r = if m.identity { a } else if a == b { a } else { V::Either };
        (TR::NoEffectAxis, r)
    }

    /// (with the standard deviation, with the variance)
    pub fn coord(&self, s: &Snap) -> (V, V) {
        let n = self.cfg.dim();
        if !s.finite() {
            return (V::Either, V::Either);
        }
        let any = |q: &dyn Fn(usize) -> f64| {
            let mut r = V::Not;
            for i in 0..n {
                let t = q(i);
                let no = |t: f64| s.mean[i] + t == s.mean[i];
                let x = match (no(t * (1.0 - 1e-12)), no(t * (1.0 + 1e-12))) {
                    (true, true) => V::Must,
                    (false, false) => V::Not,
                    _ => V::Either,
                };
                r = match (r, x) {
                    (V::Must, _) | (_, V::Must) => V::Must,
                    (V::Not, V::Not) => V::Not,
                    _ => V::Either,
                };
            }
            r
        };
        (
            any(&|i| 0.2 * s.sigma * s.cov.at(i, i).sqrt()),
            any(&|i| 0.2 * s.sigma * s.cov.at(i, i)),
        )
    }

    /// All verdicts for a completed generation
    pub fn all(&self, st: &Step) -> Vec<(TR, V)> {
        let fs: Vec<f64> = st.calls.iter().map(|c| c.f).collect();
        let s = &st.after;
        let mut r = self.budgets();
        r.push(self.target(&fs));
        r.extend(self.flat(&fs));
        r.push(self.stagnation());
        r.extend(self.stepsize(s));
        r.push(self.condition(s));
        r.push(self.axis(s));
        let (a, b) = self.coord(s);
        r.push((TR::NoEffectCoord, if a == b { a } else { V::Either }));
        r.push((TR::InvalidFunctionValue, V::Not));
        r.push((TR::PosDefCov, V::Not));
        r
    }
}

/// value below tolerance, given an error band
fn band(x: f64, err: f64, tol: f64) -> V {
    if x + err < tol {
        V::Must
    } else if x - err >= tol {
        V::Not
    } else if err == 0.0 {
        v(x < tol)
    } else {
        V::Either
    }
}
