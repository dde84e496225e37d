//! Driving the real optimiser: configurations, scripted objectives, snapshots.

use crate::rt::{hash01, Fp};
use cmaes::objective_function::{ObjectiveFunction, ParallelObjectiveFunction};
use cmaes::options::InvalidOptionsError;
use cmaes::{CMAESOptions, Constraints, DVector, Mode, PlotOptions, TerminationData, TerminationReason, Weights, CMAES};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub type TD = TerminationData;
pub type TR = TerminationReason;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub mean: Vec<f64>,
    pub sigma: f64,
    pub lambda: Option<usize>,
    pub weights: Option<Weights>,
    pub cm: Option<f64>,
    pub mode: Option<Mode>,
    pub seed: Option<u64>,
    pub par_update: Option<bool>,
    pub constraints: Option<Box<dyn Constraints>>,
    pub max_resamples: Option<Option<usize>>,
    pub max_evals: Option<usize>,
    pub max_gens: Option<usize>,
    pub max_time: Option<Duration>,
    pub fun_target: Option<f64>,
    pub tol_fun: Option<f64>,
    pub tol_fun_rel: Option<f64>,
    pub tol_fun_hist: Option<f64>,
    pub tol_x: Option<f64>,
    pub tol_stag: Option<usize>,
    pub tol_x_up: Option<f64>,
    pub tol_cond: Option<f64>,
    pub plot: Option<(usize, bool)>,
    pub print: Option<usize>,
}

unsafe impl Sync for Cfg {}

impl Cfg {
    pub fn new(mean: Vec<f64>, sigma: f64) -> Cfg {
        Cfg {
            mean,
            sigma,
            lambda: None,
            weights: None,
            cm: None,
            mode: None,
            seed: Some(1),
            par_update: None,
            constraints: None,
            max_resamples: None,
            max_evals: None,
            max_gens: None,
            max_time: None,
            fun_target: None,
            tol_fun: None,
            tol_fun_rel: None,
            tol_fun_hist: None,
            tol_x: None,
            tol_stag: None,
            tol_x_up: None,
            tol_cond: None,
            plot: None,
            print: None,
        }
    }
    /// n dimensions around the origin, all tolerance criteria switched off as far as possible
    pub fn quiet(n: usize, lambda: usize) -> Cfg {
        let mut c = Cfg::new(vec![0.0; n], 1.0);
        c.lambda = Some(lambda);
        c.no_tol()
    }
    pub fn no_tol(mut self) -> Cfg {
        self.tol_fun = Some(0.0);
        self.tol_fun_rel = Some(0.0);
        self.tol_fun_hist = Some(0.0);
        self.tol_x = Some(0.0);
        self.tol_stag = Some(usize::MAX);
        self.tol_x_up = Some(f64::INFINITY);
        self.tol_cond = Some(f64::INFINITY);
        self
    }
    pub fn w(mut self, w: Weights) -> Cfg {
        self.weights = Some(w);
        self
    }
    pub fn mode(mut self, m: Mode) -> Cfg {
        self.mode = Some(m);
        self
    }
    pub fn seed(mut self, s: u64) -> Cfg {
        self.seed = Some(s);
        self
    }
    pub fn cm(mut self, s: f64) -> Cfg {
        self.cm = Some(s);
        self
    }
    pub fn lam(mut self, s: usize) -> Cfg {
        self.lambda = Some(s);
        self
    }
    pub fn at(mut self, mean: Vec<f64>, sigma: f64) -> Cfg {
        self.mean = mean;
        self.sigma = sigma;
        self
    }
    pub fn dim(&self) -> usize {
        self.mean.len()
    }
    /// rounds put to the constraints; 10 unless set
    pub fn resample_limit(&self) -> Option<usize> {
        self.max_resamples.unwrap_or(Some(10))
    }
    pub fn is_max(&self) -> bool {
        matches!(self.mode, Some(Mode::Maximize))
    }
    pub fn lambda(&self) -> usize {
        self.lambda
            .unwrap_or_else(|| 4 + (3.0 * (self.dim() as f64).ln()).floor() as usize)
    }
    pub fn options(&self) -> CMAESOptions {
        let mut o = CMAESOptions::new(self.mean.clone(), self.sigma);
        if let Some(x) = self.lambda {
            o = o.population_size(x);
        }
        if let Some(x) = self.weights {
            o = o.weights(x);
        }
        if let Some(x) = self.cm {
            o = o.cm(x);
        }
        if let Some(x) = self.mode {
            o = o.mode(x);
        }
        if let Some(x) = self.seed {
            o = o.seed(x);
        }
        if let Some(x) = self.par_update {
            o = o.parallel_update(x);
        }
        if let Some(x) = &self.constraints {
            o = o.constraints(x.clone());
        }
        if let Some(x) = self.max_resamples {
            o = o.max_resamples(x);
        }
        if let Some(x) = self.max_evals {
            o = o.max_function_evals(x);
        }
        if let Some(x) = self.max_gens {
            o = o.max_generations(x);
        }
        if let Some(x) = self.max_time {
            o = o.max_time(x);
        }
        if let Some(x) = self.fun_target {
            o = o.fun_target(x);
        }
        if let Some(x) = self.tol_fun {
            o = o.tol_fun(x);
        }
        if let Some(x) = self.tol_fun_rel {
            o = o.tol_fun_rel(x);
        }
        if let Some(x) = self.tol_fun_hist {
            o = o.tol_fun_hist(x);
        }
        if let Some(x) = self.tol_x {
            o = o.tol_x(x);
        }
        if let Some(x) = self.tol_stag {
            o = o.tol_stagnation(x);
        }
        if let Some(x) = self.tol_x_up {
            o = o.tol_x_up(x);
        }
        if let Some(x) = self.tol_cond {
            o = o.tol_condition_cov(x);
        }
        if let Some((g, s)) = self.plot {
            o = o.enable_plot(PlotOptions::new(g, s));
        }
        if let Some(x) = self.print {
            o = o.enable_printing(x);
        }
        o
    }
}

// ---------------------------------------------------------------------------------------------
// Scripted objective

/// What a policy may look at when it answers
pub struct Q<'a> {
    /// step (call of next) number, starting at 0
    pub step: usize,
    /// index of the evaluation within the step
    pub idx: usize,
    pub x: &'a [f64],
    /// distribution at the start of the step
    pub mean: &'a [f64],
    pub sigma: f64,
}

pub type Pol = Box<dyn FnMut(&Q) -> f64 + Send>;

#[derive(Clone, Debug)]
pub struct Call {
    pub x: Vec<f64>,
    pub f: f64,
}

pub struct Rec {
    pub step: usize,
    pub calls: Vec<Call>,
    pub total: usize,
    pub cap: usize,
    pub mean: Vec<f64>,
    pub sigma: f64,
    pub pol: Pol,
    /// population size: derive step and index from the number of evaluations (for runs that are not stepped)
    pub auto: Option<usize>,
}

#[derive(Clone)]
pub struct Obj(pub Arc<Mutex<Rec>>);

impl Obj {
    pub fn new(pol: Pol) -> Obj {
        Obj(Arc::new(Mutex::new(Rec {
            step: 0,
            calls: vec![],
            total: 0,
            cap: 5_000_000,
            mean: vec![],
            sigma: 0.0,
            pol,
            auto: None,
        })))
    }
    pub fn call(&self, x: &DVector<f64>) -> f64 {
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        let r = &mut *g;
        if r.total >= r.cap {
            panic!("runaway: more than {} evaluations", r.cap);
        }
        let (step, idx) = match r.auto {
            Some(l) => (r.total / l, r.total % l),
            None => (r.step, r.calls.len()),
        };
        let f = (r.pol)(&Q {
            step,
            idx,
            x: x.as_slice(),
            mean: &r.mean,
            sigma: r.sigma,
        });
        r.total += 1;
        r.calls.push(Call {
            x: x.as_slice().to_vec(),
            f,
        });
        f
    }
}

impl ObjectiveFunction for Obj {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}

impl ParallelObjectiveFunction for Obj {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}

#[derive(Clone, Debug)]
pub struct Snap {
    pub mean: Vec<f64>,
    pub sigma: f64,
    pub cov: crate::la::Mat,
    pub eig: Vec<f64>,
    pub axis: f64,
    pub gen: usize,
    pub evals: usize,
    pub cur: Option<(Vec<f64>, f64)>,
    pub best: Option<(Vec<f64>, f64)>,
}

pub fn bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || x.is_nan() && y.is_nan())
}

fn obits(a: &Option<(Vec<f64>, f64)>, b: &Option<(Vec<f64>, f64)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => bits(&a.0, &b.0) && a.1.to_bits() == b.1.to_bits(),
        _ => false,
    }
}

impl Snap {
    pub fn of<F>(es: &CMAES<F>) -> Snap {
        let n = es.mean().len();
        let c = es.covariance_matrix();
        let mut m = crate::la::Mat::zeros(n);
        for i in 0..n {
            for j in 0..n {
                m.set(i, j, c[(i, j)]);
            }
        }
        let ind = |i: Option<&cmaes::Individual>| i.map(|i| (i.point.as_slice().to_vec(), i.value));
        Snap {
            mean: es.mean().as_slice().to_vec(),
            sigma: es.sigma(),
            cov: m,
            eig: es.eigenvalues().as_slice().to_vec(),
            axis: es.axis_ratio(),
            gen: es.generation(),
            evals: es.function_evals(),
            cur: ind(es.current_best_individual()),
            best: ind(es.overall_best_individual()),
        }
    }
    /// Distribution part equal bit for bit
    pub fn same_dist(&self, o: &Snap) -> bool {
        bits(&self.mean, &o.mean)
            && self.sigma.to_bits() == o.sigma.to_bits()
            && bits(&self.cov.a, &o.cov.a)
            && bits(&self.eig, &o.eig)
            && self.axis.to_bits() == o.axis.to_bits()
            && self.gen == o.gen
    }
    pub fn same_bests(&self, o: &Snap) -> bool {
        obits(&self.cur, &o.cur) && obits(&self.best, &o.best)
    }
    pub fn same(&self, o: &Snap) -> bool {
        self.same_dist(o) && self.same_bests(o) && self.evals == o.evals
    }
    pub fn finite(&self) -> bool {
        self.sigma.is_finite() && self.cov.finite() && self.mean.iter().all(|x| x.is_finite())
    }
    pub fn fp(&self, f: &mut Fp) {
        f.fs(&self.mean).f(self.sigma).fs(&self.cov.a).fs(&self.eig).u(self.gen as u64).u(self.evals as u64);
        for b in [&self.cur, &self.best] {
            match b {
                Some((x, v)) => {
                    f.fs(x).f(*v);
                }
                None => {
                    f.u(77);
                }
            }
        }
    }
}

pub struct Step {
    pub before: Snap,
    pub after: Snap,
    pub calls: Vec<Call>,
    pub out: Option<TD>,
}

pub struct Run {
    pub es: CMAES<Obj>,
    pub obj: Obj,
    pub last: Snap,
    pub step: usize,
}

impl Run {
    pub fn new(cfg: &Cfg, pol: Pol) -> Run {
        Run::try_new(cfg, pol).unwrap_or_else(|e| panic!("valid configuration rejected: {:?} {:?}", e, cfg))
    }
    pub fn try_new(cfg: &Cfg, pol: Pol) -> Result<Run, InvalidOptionsError> {
        let obj = Obj::new(pol);
        let es = cfg.options().build(obj.clone())?;
        let last = Snap::of(&es);
        {
            let mut r = obj.0.lock().unwrap();
            r.mean = last.mean.clone();
            r.sigma = last.sigma;
        }
        Ok(Run { es, obj, last, step: 0 })
    }
    /// Policies see the same questions whether the optimiser is stepped or run: step and index are derived from the
    /// number of evaluations, mean and step size stay the initial ones
    pub fn auto(self) -> Run {
        let l = self.es.parameters().lambda();
        self.obj.0.lock().unwrap().auto = Some(l);
        self
    }
    fn pre(&mut self) {
        let mut r = self.obj.0.lock().unwrap_or_else(|e| e.into_inner());
        r.step = self.step;
        r.calls = Vec::with_capacity(r.calls.len());
        if r.auto.is_some() {
            return;
        }
        r.mean.clear();
        r.mean.extend_from_slice(&self.last.mean);
        r.sigma = self.last.sigma;
    }
    fn post(&mut self, out: Option<TD>) -> Step {
        let calls = std::mem::take(&mut self.obj.0.lock().unwrap_or_else(|e| e.into_inner()).calls);
        let after = Snap::of(&self.es);
        let before = std::mem::replace(&mut self.last, after.clone());
        self.step += 1;
        Step { before, after, calls, out }
    }
    pub fn next(&mut self) -> Step {
        self.pre();
        let out = self.es.next();
        self.post(out)
    }
    pub fn next_parallel(&mut self) -> Step {
        self.pre();
        let out = self.es.next_parallel();
        self.post(out)
    }
    /// A cheap step: no snapshots
    pub fn raw_next(&mut self) -> Option<TD> {
        {
            let mut r = self.obj.0.lock().unwrap_or_else(|e| e.into_inner());
            r.step = self.step;
            r.calls.clear();
        }
        self.step += 1;
        self.es.next()
    }
    pub fn total_calls(&self) -> usize {
        self.obj.0.lock().unwrap_or_else(|e| e.into_inner()).total
    }
}

pub fn has(o: &Option<TD>, r: TR) -> bool {
    o.as_ref().map_or(false, |t| t.reasons.contains(&r))
}

pub fn reasons(o: &Option<TD>) -> Vec<TR> {
    o.as_ref().map(|t| t.reasons.clone()).unwrap_or_default()
}

// ---------------------------------------------------------------------------------------------
// Policies

/// Landscape and adversarial ranking kinds
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Const(f64),
    /// rank = order of evaluation
    Index,
    IndexRev,
    /// +x_k / -x_k
    Lin(usize, bool),
    Sphere,
    /// rewards far away points
    AntiSphere,
    /// distance from the current mean (shrinks) / its negation (grows)
    Near,
    Far,
    /// only coordinate k relative to the mean
    NearK(usize),
    FarK(usize),
    /// examines coordinate step % n
    Cycle(bool),
    /// ellipsoid with condition 10^c
    Elli(f64),
    /// rotated cigar direction (1,1,..,1)
    Cigar,
    /// pseudo random ranking with seed
    Hash(u64),
    /// pseudo random with many ties (k levels)
    Ties(u64, u64),
    Rosen,
    Rastrigin,
    /// -x_0 with a steep valley in the other coordinates: the condition grows without bound
    Ridge,
    /// infinities mixed in: value class by hash: -inf / finite / +inf
    Infs(u64),
}

pub fn kind_value(k: Kind, q: &Q) -> f64 {
    let x = q.x;
    let n = x.len();
    match k {
        Kind::Const(c) => c,
        Kind::Index => q.idx as f64,
        Kind::IndexRev => -(q.idx as f64),
        Kind::Lin(i, neg) => {
            if neg {
                -x[i % n]
            } else {
                x[i % n]
            }
        }
        Kind::Sphere => x.iter().map(|v| v * v).sum(),
        Kind::AntiSphere => -x.iter().map(|v| v * v).sum::<f64>(),
        Kind::Near => x.iter().zip(q.mean).map(|(a, m)| (a - m).powi(2)).sum(),
        Kind::Far => -x.iter().zip(q.mean).map(|(a, m)| (a - m).powi(2)).sum::<f64>(),
        Kind::NearK(i) => (x[i % n] - q.mean[i % n]).abs(),
        Kind::FarK(i) => -(x[i % n] - q.mean[i % n]).abs(),
        Kind::Cycle(neg) => {
            let i = q.step % n;
            let d = (x[i] - q.mean[i]).abs();
            if neg {
                -d
            } else {
                d
            }
        }
        Kind::Elli(c) => (0..n)
            .map(|i| 10f64.powf(if n > 1 { c * i as f64 / (n as f64 - 1.0) } else { 0.0 }) * x[i] * x[i])
            .sum(),
        Kind::Cigar => {
            let s: f64 = x.iter().sum::<f64>() / n as f64;
            s * s + 1e4 * x.iter().map(|v| (v - s).powi(2)).sum::<f64>()
        }
        Kind::Hash(s) => hash01(s, (q.step * 1000 + q.idx) as u64),
        Kind::Ties(s, k) => (hash01(s, (q.step * 1000 + q.idx) as u64) * k as f64).floor(),
        Kind::Rosen => {
            if n == 1 {
                return (1.0 - x[0]).powi(2);
            }
            (0..n - 1)
                .map(|i| 100.0 * (x[i + 1] - x[i] * x[i]).powi(2) + (1.0 - x[i]).powi(2))
                .sum()
        }
        Kind::Rastrigin => x
            .iter()
            .map(|v| 10.0 + v * v - 10.0 * (2.0 * std::f64::consts::PI * v).cos())
            .sum(),
        Kind::Ridge => -x[0] + 1e10 * x[1..].iter().map(|v| v.abs()).sum::<f64>(),
        Kind::Infs(s) => {
            let h = hash01(s, (q.step * 1000 + q.idx) as u64);
            if h < 0.3 {
                f64::NEG_INFINITY
            } else if h < 0.6 {
                f64::INFINITY
            } else {
                x.iter().map(|v| v * v).sum()
            }
        }
    }
}

pub fn kpol(k: Kind) -> Pol {
    Box::new(move |q| kind_value(k, q))
}

/// Alternates between kinds in blocks of `len` steps
pub fn blocks(ks: Vec<Kind>, len: usize) -> Pol {
    Box::new(move |q| kind_value(ks[(q.step / len) % ks.len()], q))
}

/// Step s, evaluation i answers words[s % len][i]
pub fn wpol(words: Vec<Vec<f64>>) -> Pol {
    Box::new(move |q| {
        let w = &words[q.step % words.len()];
        w[q.idx % w.len()]
    })
}

pub fn all_kinds() -> Vec<Kind> {
    use Kind::*;
    vec![
        Const(0.0),
        Index,
        IndexRev,
        Lin(0, false),
        Lin(1, true),
        Sphere,
        AntiSphere,
        Near,
        Far,
        NearK(0),
        FarK(0),
        NearK(1),
        FarK(1),
        Cycle(false),
        Cycle(true),
        Elli(6.0),
        Cigar,
        Hash(1),
        Hash(2),
        Ties(3, 3),
        Rosen,
        Rastrigin,
        Infs(5),
    ]
}

/// All weak orders of n elements as level vectors 0..k-1 (dense ranks)
pub fn weak_orders(n: usize) -> Vec<Vec<usize>> {
    let mut r = vec![];
    let mut cur = vec![0usize; n];
    fn rec(i: usize, n: usize, cur: &mut Vec<usize>, r: &mut Vec<Vec<usize>>) {
        if i == n {
            let m = *cur.iter().max().unwrap();
            for l in 0..=m {
                if !cur.contains(&l) {
                    return;
                }
            }
            r.push(cur.clone());
            return;
        }
        for v in 0..n {
            cur[i] = v;
            rec(i + 1, n, cur, r);
        }
    }
    rec(0, n, &mut cur, &mut r);
    r
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut r = vec![];
    fn rec(k: usize, a: &mut Vec<usize>, r: &mut Vec<Vec<usize>>) {
        if k == a.len() {
            r.push(a.clone());
            return;
        }
        for i in k..a.len() {
            a.swap(k, i);
            rec(k + 1, a, r);
            a.swap(k, i);
        }
    }
    rec(0, &mut (0..n).collect(), &mut r);
    r
}

/// Enumerates all sequences over `0..base` of length `len`
pub fn sequences(base: usize, len: usize) -> Vec<Vec<usize>> {
    let mut r = vec![];
    let total = (base as u64).pow(len as u32);
    for mut c in 0..total {
        let mut v = Vec::with_capacity(len);
        for _ in 0..len {
            v.push((c % base as u64) as usize);
            c /= base as u64;
        }
        r.push(v);
    }
    r
}

pub fn wname(w: Weights) -> &'static str {
    match w {
        Weights::Positive => "pos",
        Weights::Negative => "neg",
        Weights::Uniform => "uni",
    }
}

pub const WS: [Weights; 3] = [Weights::Negative, Weights::Positive, Weights::Uniform];
pub const MODES: [Mode; 2] = [Mode::Minimize, Mode::Maximize];

pub fn mname(m: Mode) -> &'static str {
    match m {
        Mode::Minimize => "min",
        Mode::Maximize => "max",
    }
}

// ---------------------------------------------------------------------------------------------
// Wide shapes: the corners that small exhaustive scopes leave out (long histories, large populations, many dimensions)

/// (dimensions, population size, generations)
pub fn wide(thorough: bool) -> Vec<(usize, usize, usize)> {
    let k = if thorough { 4 } else { 1 };
    [
        (1usize, 2usize, 3000usize),
        (2, 3, 2000),
        (3, 7, 900),
        (5, 8, 1200),
        (2, 64, 150),
        (3, 130, 60),
        (2, 257, 40),
        (2, 1000, 12),
        (10, 10, 400),
        (30, 14, 150),
        (64, 5, 60),
        (120, 4, 15),
    ]
    .into_iter()
    .map(|(n, l, g)| (n, l, if l >= 1000 || n >= 120 { g * k.min(2) } else { g * k }))
    .collect()
}

/// Landscapes for wide walks; answers depend on the point (and the step) only, except for the order dependent ones
pub fn wide_kinds() -> Vec<Kind> {
    vec![Kind::Sphere, Kind::Far, Kind::Hash(11), Kind::Ties(4, 3), Kind::Elli(4.0), Kind::Infs(8), Kind::Const(2.0)]
}

/// Is the generation with this number aborted by an invalid value? Early, late, twice in a row, and after long quiet stretches
pub fn aborted_at(step: usize) -> bool {
    matches!(step, 0 | 1 | 5 | 18 | 19 | 20 | 21 | 39 | 40 | 63 | 64 | 65 | 99 | 100 | 101 | 127 | 128 | 199 | 255 | 256 | 257 | 299 | 511 | 512 | 999 | 1000 | 1023 | 1999 | 2000)
        || (step > 2000 && step % 997 == 3)
}

/// `k` with one NaN in every generation `aborted_at` names
pub fn nan_pol(k: Kind) -> Pol {
    Box::new(move |q| {
        if aborted_at(q.step) && q.idx == q.step % 2 {
            f64::NAN
        } else {
            kind_value(k, q)
        }
    })
}

/// Initial step sizes over the whole range of valid ones
pub const SCALES: [f64; 9] = [f64::MIN_POSITIVE, 3e-308, 1e-290, 1e-200, 1e-154, 1e154, 1e200, 1e290, 1.7e308];

/// Landscapes for walks at extreme scales: by the point (with overflow and underflow), relative to the mean, and scripted
pub fn scale_kinds() -> [Kind; 7] {
    [Kind::Lin(0, false), Kind::Sphere, Kind::Near, Kind::Far, Kind::Hash(11), Kind::Infs(8), Kind::FarK(0)]
}
