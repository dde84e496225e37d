//! P23-P27: automatic restarts. The real restarter is run on scripted objectives; its printed parameters and the
//! recorded evaluations are compared with an executable model of the restart strategies.

use super::equiv::rset;
use super::parallel::pool;
use super::sampling::ZStream;
use crate::rt::*;
use crate::sim::*;
use cmaes::objective_function::{ObjectiveFunction, ParallelObjectiveFunction};
use cmaes::restart::options::{InvalidRestartOptionsError, InvalidRestartStrategyOptionsError};
use cmaes::restart::{Local, RestartOptions, RestartResults, RestartStrategy, RestartTerminationReason as RR, BIPOP, IPOP};
use cmaes::{CMAESOptions, DVector, Mode};
use serde_json::json;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Strat {
    Local(usize, Option<f64>),
    Ipop(usize),
    IpopDefault,
    Bipop(Option<f64>, Option<usize>),
    BipopDefault,
}

impl Strat {
    pub fn build(self) -> Result<RestartStrategy, InvalidRestartStrategyOptionsError> {
        Ok(match self {
            Strat::Local(m, f) => RestartStrategy::Local(Local::new(m, f)?),
            Strat::Ipop(k) => RestartStrategy::IPOP(IPOP::new(k)?),
            Strat::IpopDefault => RestartStrategy::IPOP(IPOP::default()),
            Strat::Bipop(f, k) => RestartStrategy::BIPOP(BIPOP::new(f, k)?),
            Strat::BipopDefault => RestartStrategy::BIPOP(BIPOP::default()),
        })
    }
    pub fn name(self) -> &'static str {
        match self {
            Strat::Local(..) => "LR-aCMA-ES",
            Strat::Ipop(_) | Strat::IpopDefault => "IPOP-aCMA-ES",
            _ => "BIPOP-aCMA-ES",
        }
    }
}

#[derive(Clone, Debug)]
pub struct RCfg {
    pub strat: Strat,
    pub n: usize,
    pub range: (f64, f64),
    pub mode: Option<Mode>,
    pub par_update: Option<bool>,
    /// mean and step size of the default options are irrelevant
    pub defaults: Option<Cfg>,
    pub target: Option<f64>,
    pub max_evals: Option<usize>,
    pub max_time: Option<Duration>,
    pub run_evals: Option<usize>,
    pub run_gens: Option<usize>,
    pub seed: Option<u64>,
}

impl RCfg {
    pub fn new(strat: Strat, n: usize) -> RCfg {
        RCfg {
            strat,
            n,
            range: (-2.0, 3.0),
            mode: None,
            par_update: None,
            defaults: None,
            target: None,
            max_evals: None,
            max_time: None,
            run_evals: None,
            run_gens: None,
            seed: Some(5),
        }
    }
    pub fn options(&self, print: bool) -> RestartOptions {
        let mut o = RestartOptions::new(self.n, self.range.0..=self.range.1, self.strat.build().expect("valid strategy"));
        if let Some(m) = self.mode {
            o = o.mode(m);
        }
        if let Some(m) = self.par_update {
            o = o.parallel_update(m);
        }
        if let Some(m) = &self.defaults {
            o = o.default_options(m.options());
        }
        if let Some(m) = self.target {
            o = o.fun_target(m);
        }
        if let Some(m) = self.max_evals {
            o = o.max_function_evals(m);
        }
        if let Some(m) = self.max_time {
            o = o.max_time(m);
        }
        if let Some(m) = self.run_evals {
            o = o.max_function_evals_per_run(m);
        }
        if let Some(m) = self.run_gens {
            o = o.max_generations_per_run(m);
        }
        if let Some(m) = self.seed {
            o = o.seed(m);
        }
        if print {
            o = o.enable_printing(true);
        }
        o
    }
    pub fn is_max(&self) -> bool {
        matches!(self.mode, Some(Mode::Maximize))
    }
    pub fn lambda0(&self) -> usize {
        match &self.defaults {
            Some(d) => d.lambda(),
            None => Cfg::new(vec![0.0; self.n], 1.0).lambda(),
        }
    }
}

/// What a policy may look at
pub struct RQ<'a> {
    pub run: usize,
    pub idx: usize,
    pub total: usize,
    pub x: &'a [f64],
}

pub type RPol = Box<dyn FnMut(&RQ) -> f64 + Send>;

pub struct RLog {
    pub runs: Vec<Vec<Call>>,
    pub total: usize,
    pub pol: RPol,
    pub factory: usize,
}

#[derive(Clone)]
pub struct RObj {
    run: usize,
    log: Arc<Mutex<RLog>>,
}

impl RObj {
    fn call(&self, x: &DVector<f64>) -> f64 {
        let mut g = self.log.lock().unwrap_or_else(|e| e.into_inner());
        let l = &mut *g;
        if l.total > 3_000_000 {
            panic!("runaway: more than 3000000 evaluations");
        }
        let q = RQ { run: self.run, idx: l.runs[self.run].len(), total: l.total, x: x.as_slice() };
        let f = (l.pol)(&q);
        l.total += 1;
        l.runs[self.run].push(Call { x: x.as_slice().to_vec(), f });
        f
    }
}

impl ObjectiveFunction for RObj {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}

impl ParallelObjectiveFunction for RObj {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.call(x)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Entry {
    Run,
    Reuse,
    Par,
    ParReuse,
}

pub const ENTRIES: [Entry; 4] = [Entry::Run, Entry::Reuse, Entry::Par, Entry::ParReuse];

#[derive(Clone, Debug, Default)]
pub struct RunInfo {
    pub lambda: usize,
    pub sigma0: f64,
    pub seed: u64,
    pub reasons: Vec<String>,
    pub evals: usize,
    pub best: String,
}

pub struct Out {
    pub res: RestartResults,
    pub seed: u64,
    pub info: Vec<RunInfo>,
    pub header: String,
    pub tail: String,
    /// all of the output
    pub text: String,
    /// calls per run
    pub runs: Vec<Vec<Call>>,
    pub total: usize,
    pub factory: usize,
}

fn field<'a>(l: &'a str, key: &str) -> Option<&'a str> {
    let i = l.find(key)?;
    let r = &l[i + key.len()..];
    let r = r.trim_start();
    let e = r.find(|c: char| c == ',' || c.is_whitespace()).unwrap_or(r.len());
    Some(&r[..e])
}

/// Parses the printed log; None if it does not look as documented
fn parse(s: &str) -> Option<(String, Vec<RunInfo>, String)> {
    let mut info = vec![];
    let mut lines = s.lines();
    let header = lines.next()?.to_string();
    let mut tail = String::new();
    let mut open: Option<RunInfo> = None;
    for l in lines {
        if !tail.is_empty() || l.starts_with("Terminated in") {
            tail.push_str(l);
            tail.push('\n');
        } else if l.starts_with("Run ") && l.contains(" parameters:") {
            if open.is_some() || field(l, "Run ")?.parse::<usize>().ok()? != info.len() + 1 {
                return None;
            }
            open = Some(RunInfo {
                lambda: field(l, "lambda=")?.parse().ok()?,
                sigma0: field(l, "sigma0=")?.parse().ok()?,
                seed: field(l, "seed=")?.parse().ok()?,
                ..Default::default()
            });
        } else if l.starts_with("Run ") && l.contains(" results:") {
            let mut i = open.take()?;
            if field(l, "Run ")?.parse::<usize>().ok()? != info.len() + 1 {
                return None;
            }
            i.best = field(l, "f-val=")?.to_string();
            i.evals = field(l, "f-evals=")?.parse().ok()?;
            let a = l.find("termination_reasons=[")? + "termination_reasons=[".len();
            let b = a + l[a..].find(']')?;
            i.reasons = l[a..b].split(',').map(|r| r.trim().trim_matches('`').to_string()).filter(|r| !r.is_empty()).collect();
            i.reasons.sort();
            info.push(i);
        }
        // other lines (of runs that print) are not ours
    }
    if open.is_some() {
        return None;
    }
    Some((header, info, tail))
}

/// Runs the restarter with printing enabled
pub fn go(cfg: &RCfg, entry: Entry, pol: RPol) -> Result<Out, String> {
    let log = Arc::new(Mutex::new(RLog { runs: vec![], total: 0, pol, factory: 0 }));
    let r = cfg.options(true).build().map_err(|e| format!("valid restart options rejected: {:?}", e))?;
    let seed = r.seed();
    let l2 = log.clone();
    let mk = move || {
        let mut g = l2.lock().unwrap_or_else(|e| e.into_inner());
        g.runs.push(vec![]);
        g.factory += 1;
        RObj { run: g.runs.len() - 1, log: l2.clone() }
    };
    let (res, text) = capture(|| {
        guarded(|| {
            let mk = mk;
            match entry {
                Entry::Run => r.run(mk),
                Entry::Par => r.run_parallel(mk),
                Entry::Reuse => r.run_with_reuse(mk()),
                Entry::ParReuse => r.run_parallel_with_reuse(mk()),
            }
        })
    });
    let res = res.map_err(|p| format!("panicked: {}", p))?;
    let (header, info, tail) = parse(&text).ok_or_else(|| format!("unexpected output: {:.600}", text))?;
    let mut g = log.lock().unwrap_or_else(|e| e.into_inner());
    let mut runs = std::mem::take(&mut g.runs);
    if matches!(entry, Entry::Reuse | Entry::ParReuse) {
        let mut all = runs.pop().unwrap_or_default();
        let mut v = vec![];
        for i in &info {
            let rest = all.split_off(i.evals.min(all.len()));
            v.push(std::mem::replace(&mut all, rest));
        }
        if !all.is_empty() {
            v.push(all);
        }
        runs = v;
    }
    Ok(Out { res, seed, info, header, tail, text, runs, total: g.total, factory: g.factory })
}

pub fn fp_out(ctx: &mut Ctx, o: &Out) {
    let mut f = Fp::new("restart");
    for (i, r) in o.info.iter().zip(&o.runs) {
        f.u(i.lambda as u64).u(i.seed).u(i.evals as u64);
        for c in r {
            f.f(c.f);
        }
        for r in &i.reasons {
            f.s(r);
        }
        ctx.state(f.0);
        ctx.trans(1);
    }
    ctx.trace();
}

pub fn better(max: bool, a: f64, b: f64) -> bool {
    if max {
        a > b
    } else {
        a < b
    }
}

/// Everything the results must say about the recorded history (P23 and P24). `elapsed` gives the time after each run.
fn account(ctx: &mut Ctx, cfg: &RCfg, entry: Entry, o: &Out, elapsed: Option<&[Duration]>, what: &str) {
    let bad = |ctx: &mut Ctx, k: &str, d: String| ctx.viol(k, format!("{}: {} ({:?}, {:?})", what, d, entry, cfg));
    let runs = o.info.len();
    // counts
    if o.res.runs != runs {
        bad(ctx, "runs", format!("reports {} runs, made {}", o.res.runs, runs));
    }
    let reuse = matches!(entry, Entry::Reuse | Entry::ParReuse);
    if !reuse && o.factory != runs {
        bad(ctx, "factory", format!("{} objectives requested for {} runs", o.factory, runs));
    }
    if o.runs.len() != runs && !(reuse && runs == 0) {
        bad(ctx, "unaccounted", format!("{} groups of evaluations for {} runs", o.runs.len(), runs));
        return;
    }
    if o.res.function_evals != o.total {
        bad(ctx, "evals", format!("reports {} evaluations, objective called {} times", o.res.function_evals, o.total));
    }
    for (k, (i, r)) in o.info.iter().zip(&o.runs).enumerate() {
        if i.evals != r.len() {
            bad(ctx, "run-evals", format!("run {} prints {} evaluations, objective called {} times", k + 1, i.evals, r.len()));
        }
    }
    // best over completed generations
    let mut best: Option<f64> = None;
    let mut invalid = None;
    for (k, (i, r)) in o.info.iter().zip(&o.runs).enumerate() {
        for g in r.chunks(i.lambda.max(1)) {
            if g.len() < i.lambda || g.iter().any(|c| c.f.is_nan()) {
                invalid = Some(k);
                continue;
            }
            for c in g {
                if best.map_or(true, |b| better(cfg.is_max(), c.f, b)) {
                    best = Some(c.f);
                }
            }
        }
    }
    match (&o.res.best, best) {
        (None, None) => (),
        (Some(b), Some(v)) => {
            if b.value != v {
                bad(ctx, "best", format!("best is {:e}, the best value of a completed generation is {:e}", b.value, v));
            } else if !o.runs.iter().flatten().any(|c| c.f == v && bits(&c.x, b.point.as_slice())) {
                bad(ctx, "best-point", format!("the point of the best individual was not evaluated to {:e}", v));
            }
        }
        (a, b) => bad(ctx, "best", format!("best {:?}, expected value {:?}", a.as_ref().map(|i| i.value), b)),
    }
    // reasons
    let reached = |k: usize| o.runs[k].iter().enumerate().any(|(j, c)| {
        cfg.target.map_or(false, |t| !better(cfg.is_max(), t, c.f) && !c.f.is_nan())
            && (j / o.info[k].lambda + 1) * o.info[k].lambda <= o.runs[k].len()
            && o.runs[k][j / o.info[k].lambda * o.info[k].lambda..(j / o.info[k].lambda + 1) * o.info[k].lambda].iter().all(|c| !c.f.is_nan())
    });
    let mut evals = 0;
    let zero_runs = matches!(cfg.strat, Strat::Local(0, _));
    let mut mdl = Sched::new(cfg);
    let mut want: Option<(usize, RR)> = None;
    for k in 0..=runs {
        // before run k
        if zero_runs {
            want = Some((k, RR::MaxRuns));
            break;
        }
        if cfg.max_evals.map_or(false, |m| evals >= m) {
            want = Some((k, RR::MaxFunctionEvals));
            break;
        }
        if let (Some(mt), Some(el)) = (cfg.max_time, elapsed) {
            let t = if k == 0 { Duration::ZERO } else { el[k - 1] };
            if t >= mt {
                want = Some((k, RR::MaxTime));
                break;
            }
        }
        if k == runs {
            break;
        }
        let last = mdl.last_run();
        mdl.after(o.info[k].evals);
        evals += o.runs[k].len();
        if invalid == Some(k) {
            want = Some((k + 1, RR::InvalidFunctionValue));
            break;
        }
        if reached(k) {
            want = Some((k + 1, RR::FunTarget));
            break;
        }
        if last {
            want = Some((k + 1, RR::MaxRuns));
            break;
        }
    }
    match want {
        None => bad(ctx, "stopped-early", format!("stopped after {} runs with {:?}, but nothing stops it there", runs, o.res.reason)),
        Some((k, r)) => {
            if k != runs {
                bad(ctx, "stopped-late", format!("stopped after {} runs with {:?}; {:?} applies after run {}", runs, o.res.reason, r, k));
            } else if r != o.res.reason {
                bad(ctx, "reason", format!("reports {:?}, the reason is {:?}", o.res.reason, r));
            }
        }
    }
    // per-run limits
    for (k, (i, r)) in o.info.iter().zip(&o.runs).enumerate() {
        let gens = r.len() / i.lambda.max(1);
        if let Some(m) = cfg.run_gens {
            if gens > m.max(1) {
                bad(ctx, "run-gens", format!("run {} made {} generations with a limit of {}", k + 1, gens, m));
            }
            if gens >= m && invalid != Some(k) && !i.reasons.iter().any(|r| r == "MaxGenerations") {
                bad(ctx, "run-gens-reason", format!("run {} ended with {:?} after {} generations with a limit of {}", k + 1, i.reasons, gens, m));
            }
        } else if i.reasons.iter().any(|r| r == "MaxGenerations") {
            bad(ctx, "run-gens-reason", format!("run {} reports MaxGenerations without a limit", k + 1));
        }
        if let Some(m) = cfg.run_evals {
            if r.len() >= m.max(1) + i.lambda {
                bad(ctx, "run-evals-limit", format!("run {} made {} evaluations with a limit of {} (lambda {})", k + 1, r.len(), m, i.lambda));
            }
            if r.len() >= m && invalid != Some(k) && !i.reasons.iter().any(|r| r == "MaxFunctionEvals") {
                bad(ctx, "run-evals-reason", format!("run {} ended with {:?} after {} evaluations with a limit of {}", k + 1, i.reasons, r.len(), m));
            }
        }
        if reached(k) != i.reasons.iter().any(|r| r == "FunTarget") {
            bad(ctx, "run-target", format!("run {}: target reached is {}, reasons {:?}", k + 1, reached(k), i.reasons));
        }
        if i.reasons.is_empty() {
            bad(ctx, "run-reasons", format!("run {} ended without a reason", k + 1));
        }
    }
    // the printed summary
    let want = format!("Terminated in {} f-evals with reason: `{:?}`", o.res.function_evals, o.res.reason);
    if o.tail.lines().next() != Some(want.as_str()) {
        bad(ctx, "printed-summary", format!("prints {:?}, expected {:?}", o.tail.lines().next(), want));
    }
}

/// Model of the schedules
#[derive(Clone, Debug)]
pub struct Sched {
    strat: Strat,
    lam0: usize,
    range: f64,
    per_run: Option<usize>,
    runs: usize,
    mult: usize,
    last_mult: usize,
    ipop_runs: usize,
    ipop_evals: usize,
    lr_evals: usize,
    last_ipop: usize,
}

/// What the next run must look like
#[derive(Clone, Debug)]
pub struct Plan {
    pub lambda: (usize, usize),
    pub sigma: (f64, f64),
    pub limit: Option<usize>,
    pub lr: bool,
}

impl Sched {
    pub fn new(c: &RCfg) -> Sched {
        Sched {
            strat: c.strat,
            lam0: c.lambda0(),
            range: (c.range.1 - c.range.0).abs(),
            per_run: c.run_evals,
            runs: 0,
            mult: 1,
            last_mult: 1,
            ipop_runs: 0,
            ipop_evals: 0,
            lr_evals: 0,
            last_ipop: 0,
        }
    }
    fn factor(&self) -> usize {
        match self.strat {
            Strat::Ipop(k) => k,
            Strat::Bipop(_, Some(k)) => k,
            _ => 2,
        }
    }
    fn lr_next(&self) -> bool {
        matches!(self.strat, Strat::Bipop(..) | Strat::BipopDefault) && self.ipop_runs != 0 && self.lr_evals < self.ipop_evals
    }
    pub fn plan(&self) -> Plan {
        let cl = |s: f64| s.clamp(f64::MIN_POSITIVE, f64::MAX);
        match self.strat {
            Strat::Local(_, f) => {
                let s = cl(self.range * f.unwrap_or(0.5) * 1e-2);
                Plan { lambda: (self.lam0, self.lam0), sigma: (s, s), limit: self.per_run, lr: true }
            }
            Strat::Ipop(_) | Strat::IpopDefault => {
                let s = cl(self.range / 2.0);
                let l = self.lam0 * self.mult;
                Plan { lambda: (l, l), sigma: (s, s), limit: self.per_run, lr: false }
            }
            Strat::Bipop(..) | Strat::BipopDefault => {
                if self.lr_next() {
                    let f = match self.strat {
                        Strat::Bipop(Some(f), _) => f,
                        _ => 0.2,
                    };
                    let half = self.last_ipop / 2;
                    Plan {
                        lambda: (self.lam0, self.lam0.max((self.lam0 as f64 * self.last_mult as f64 / 2.0).floor() as usize)),
                        sigma: (cl(self.range * f * 1e-2), cl(self.range * f)),
                        limit: Some(self.per_run.map_or(half, |m| m.min(half))),
                        lr: true,
                    }
                } else {
                    let s = cl(self.range / 5.0);
                    let l = self.lam0 * self.mult;
                    Plan { lambda: (l, l), sigma: (s, s), limit: self.per_run, lr: false }
                }
            }
        }
    }
    /// whether the coming run is the last the strategy has left
    pub fn last_run(&self) -> bool {
        match self.strat {
            Strat::Local(m, _) => self.runs + 1 >= m,
            Strat::Ipop(_) | Strat::IpopDefault => self.runs + 1 >= 10,
            _ => !self.lr_next() && self.ipop_runs + 1 >= 10,
        }
    }
    pub fn after(&mut self, evals: usize) {
        let lr = self.lr_next();
        self.runs += 1;
        match self.strat {
            Strat::Local(..) => (),
            Strat::Ipop(_) | Strat::IpopDefault => self.mult = self.mult.saturating_mul(self.factor()),
            _ => {
                if lr {
                    self.lr_evals += evals;
                } else {
                    self.ipop_runs += 1;
                    self.ipop_evals += evals;
                    self.last_ipop = evals;
                    self.last_mult = self.mult;
                    self.mult = self.mult.saturating_mul(self.factor());
                }
            }
        }
    }
}

/// Initial mean and step size recovered from the first generation and the run's seed
pub fn recover(n: usize, i: &RunInfo, calls: &[Call]) -> Result<(Vec<f64>, f64), String> {
    let mut zs = ZStream::new(i.seed);
    let k = i.lambda.min(calls.len());
    if k < 2 {
        return Err("too few evaluations".into());
    }
    let z: Vec<Vec<f64>> = (0..k).map(|_| zs.vec(n)).collect();
    let (mut bi, mut bj, mut bc, mut bd) = (0, 1, 0, -1.0);
    for a in 0..k {
        for b in 0..a {
            for c in 0..n {
                let d = (z[a][c] - z[b][c]).abs();
                if d > bd {
                    (bi, bj, bc, bd) = (a, b, c, d);
                }
            }
        }
    }
    let sigma = calls[bi].x[bc] / (z[bi][bc] - z[bj][bc]) - calls[bj].x[bc] / (z[bi][bc] - z[bj][bc]);
    let mean: Vec<f64> = (0..n).map(|c| calls[0].x[c] - sigma * z[0][c]).collect();
    for a in 0..k {
        for c in 0..n {
            let want = mean[c] + sigma * z[a][c];
            let tol = 1e-10 * (mean[c].abs() + sigma.abs() * 10.0) + 1e-300;
            if (calls[a].x[c] - want).abs() > tol {
                return Err(format!(
                    "point {} of the first generation is {:?}, not mean + {:e} * the seed's deviates (expected {:e} in coordinate {})",
                    a, calls[a].x, sigma, want, c
                ));
            }
        }
    }
    Ok((mean, sigma))
}

fn close(a: f64, b: f64, rel: f64) -> bool {
    (a - b).abs() <= rel * a.abs().max(b.abs())
}

/// Every run obeys the schedule
fn schedule(ctx: &mut Ctx, cfg: &RCfg, o: &Out, what: &str) -> Vec<(Plan, f64)> {
    let mut m = Sched::new(cfg);
    let mut r = vec![];
    for (k, (i, calls)) in o.info.iter().zip(&o.runs).enumerate() {
        let p = m.plan();
        let bad = |ctx: &mut Ctx, key: &str, d: String| {
            ctx.viol(key, format!("{}: run {} ({} so far: {:?}): {} (planned {:?}; {:?})", what, k + 1, k, m, d, p, cfg));
        };
        if i.lambda < p.lambda.0 || i.lambda > p.lambda.1 {
            bad(ctx, "population", format!("population size {}", i.lambda));
        }
        let prec = (1.0 - 1e-4, 1.0 + 1e-4);
        if i.sigma0 < p.sigma.0 * prec.0 || i.sigma0 > p.sigma.1 * prec.1 {
            bad(ctx, "sigma-printed", format!("initial step size {:e}", i.sigma0));
        }
        let mut used = i.sigma0;
        match recover(cfg.n, i, calls) {
            Ok((_, s)) => {
                used = s;
                let scale = cfg.range.0.abs().max(cfg.range.1.abs());
                let tol = 1e-9 + 1e-14 * scale / p.sigma.0;
                if s < p.sigma.0 * (1.0 - tol) || s > p.sigma.1 * (1.0 + tol) {
                    bad(ctx, "sigma", format!("initial step size recovered from the points {:e}", s));
                }
                if !close(s, i.sigma0, 1e-4) {
                    bad(ctx, "sigma-printed", format!("prints the step size {:e}, used {:e}", i.sigma0, s));
                }
            }
            Err(e) => {
                if !calls.iter().any(|c| c.f.is_nan()) {
                    bad(ctx, "points", e);
                }
            }
        }
        if let Some(l) = p.limit {
            if calls.len() >= l.max(1) + i.lambda {
                bad(ctx, "limit", format!("{} evaluations with a limit of {}", calls.len(), l));
            }
            if calls.len() >= l && !i.reasons.iter().any(|r| r == "MaxFunctionEvals" || r == "InvalidFunctionValue") {
                bad(ctx, "limit", format!("ended with {:?} after {} evaluations with a limit of {}", i.reasons, calls.len(), l));
            }
        }
        let lim = i.reasons.iter().any(|r| r == "MaxFunctionEvals");
        if lim && p.limit.map_or(true, |l| calls.len() < l) {
            bad(ctx, "limit", format!("ended with MaxFunctionEvals after {} evaluations", calls.len()));
        }
        r.push((p, used));
        m.after(calls.len());
    }
    r
}

/// flat for a whole run except for its first `lens[run]` generations
fn lens_pol(lens: Vec<usize>, lam: usize) -> RPol {
    Box::new(move |q| {
        let l = lens.get(q.run).copied().unwrap_or(0);
        if q.idx < l * lam {
            hash01(q.run as u64, q.idx as u64)
        } else {
            7.0
        }
    })
}

/// A long run that ends when the points converge
fn fpol(f: fn(&[f64]) -> f64) -> RPol {
    Box::new(move |q| f(q.x))
}

fn sphere(x: &[f64]) -> f64 {
    x.iter().map(|v| (v - 0.3) * (v - 0.3)).sum()
}
fn rastr(x: &[f64]) -> f64 {
    x.iter().map(|v| 10.0 + v * v - 10.0 * (2.0 * std::f64::consts::PI * v).cos()).sum()
}
fn steps(x: &[f64]) -> f64 {
    x.iter().map(|v| v.abs().floor()).sum()
}
fn lin(x: &[f64]) -> f64 {
    x[0]
}
const FNS: [(&str, fn(&[f64]) -> f64); 4] = [("sphere", sphere), ("rastrigin", rastr), ("steps", steps), ("lin", lin)];

fn strats() -> Vec<Strat> {
    vec![
        Strat::Local(0, None),
        Strat::Local(1, None),
        Strat::Local(3, Some(0.25)),
        Strat::Local(4, None),
        Strat::IpopDefault,
        Strat::Ipop(1),
        Strat::BipopDefault,
        Strat::Bipop(Some(0.5), Some(1)),
        Strat::Bipop(None, Some(3)),
    ]
}

fn sid(s: Strat) -> String {
    format!("{:?}", s).replace(' ', "")
}

// ---------------------------------------------------------------------------------------------
// P23

pub fn p23(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    // budgets at every boundary of an unlimited history
    for s in strats() {
        for mode in MODES {
            for n in tier.pick(vec![1usize, 2], vec![1, 2, 3]) {
                jobs.push(job(format!("budgets/{}/{}/n{}", sid(s), mname(mode), n), move |ctx| {
                    let mut base = RCfg::new(s, n);
                    base.mode = Some(mode);
                    let lens = vec![3usize, 0, 9, 0, 20, 1, 5];
                    let lam = base.lambda0();
                    let mut free = base.clone();
                    // bounds the pilot
                    free.max_evals = Some(tier.pick(1500, 6000));
                    let pilot = match go(&free, Entry::Run, lens_pol(lens.clone(), lam)) {
                        Ok(o) => o,
                        Err(e) => return ctx.viol("run", e),
                    };
                    account(ctx, &free, Entry::Run, &pilot, None, "pilot");
                    fp_out(ctx, &pilot);
                    let mut cuts = vec![0usize, 1, usize::MAX];
                    let mut sum = 0;
                    for i in pilot.info.iter().take(tier.pick(8, 16)) {
                        sum += i.evals;
                        cuts.extend([sum - 1, sum, sum + 1]);
                    }
                    for b in cuts {
                        if b == usize::MAX && !matches!(s, Strat::Local(..)) {
                            continue;
                        }
                        for e in [Entry::Run, Entry::Reuse] {
                            let mut c = base.clone();
                            c.max_evals = Some(b);
                            // a reused objective cannot tell the runs apart
                            let pol: RPol = if e == Entry::Run { lens_pol(lens.clone(), lam) } else { Box::new(move |q| if q.total < 40 { hash01(1, q.total as u64) } else { 7.0 }) };
                            match go(&c, e, pol) {
                                Ok(o) => {
                                    account(ctx, &c, e, &o, None, &format!("budget {}", b));
                                    fp_out(ctx, &o);
                                }
                                Err(er) => ctx.viol("run", format!("{} ({:?})", er, c)),
                            }
                        }
                        ctx.count("budgets_tried", 1);
                    }
                    ctx.sample(|| json!({"strategy": format!("{:?}", s), "runs": pilot.info.iter().map(|i| json!([i.lambda, i.evals, i.reasons])).collect::<Vec<_>>(), "reason": format!("{:?}", pilot.res.reason)}));
                }));
            }
        }
    }
    // time limits under a virtual clock: every evaluation costs a second
    for s in strats() {
        jobs.push(job(format!("time/{}", sid(s)), move |ctx| {
            let mut base = RCfg::new(s, 1);
            base.run_gens = Some(3);
            // a second budget, both orders of exhaustion
            for evals in [None, Some(1usize), Some(12), Some(30), Some(31), Some(100)] {
                for t_ns in [0i64, 1, 999_999_999, 1_000_000_000, 4_000_000_000, 11_999_999_999, 12_000_000_000, 12_000_000_001, 24_000_000_000, 36_000_000_000, 59_999_999_999, 60_000_000_000, 300_000_000_000] {
                    let mut c = base.clone();
                    c.max_evals = evals;
                    c.max_time = Some(Duration::from_nanos(t_ns as u64));
                    let r = with_virtual_clock(|| {
                        go(
                            &c,
                            Entry::Run,
                            Box::new(|q| {
                                advance_ns(1_000_000_000);
                                hash01(9, q.total as u64)
                            }),
                        )
                    });
                    match r {
                        Ok(o) => {
                            let mut el = vec![];
                            let mut t = 0;
                            for i in &o.runs {
                                t += i.len() as u64;
                                el.push(Duration::from_secs(t));
                            }
                            account(ctx, &c, Entry::Run, &o, Some(&el), &format!("time limit {} ns", t_ns));
                            if let Some(k) = o.info.iter().position(|i| i.reasons.iter().any(|r| r == "MaxTime")) {
                                ctx.viol("run-cut-short", format!("run {} ended with {:?}: the total time limit of {} ns is one between runs ({:?})", k + 1, o.info[k].reasons, t_ns, c));
                            }
                            fp_out(ctx, &o);
                        }
                        Err(er) => ctx.viol("run", format!("{} ({:?})", er, c)),
                    }
                }
            }
        }));
    }
    // all histories of run outcomes: quiet end, target reached, invalid value, in each of the first runs
    for s in strats() {
        for mode in MODES {
            jobs.push(job(format!("outcomes/{}/{}", sid(s), mname(mode)), move |ctx| {
                let depth = tier.pick(4, 6);
                // 0: quiet end, 1: near miss, 2: target, 3: invalid value, 4: target in the last generation its limits allow, 5: at the first point
                for (wi, w) in sequences(6, depth).into_iter().enumerate() {
                    // an outcome that ends everything may only be last
                    let end = w.iter().position(|o| *o >= 2).unwrap_or(depth);
                    if w[(end + 1).min(depth)..].iter().any(|o| *o != 0) {
                        continue;
                    }
                    let mut c = RCfg::new(s, 1);
                    c.mode = Some(mode);
                    let lam = c.lambda0();
                    if wi % 3 != 1 {
                        c.run_gens = Some(4);
                    }
                    if wi % 3 != 0 {
                        c.run_evals = Some(4 * lam);
                    }
                    c.max_evals = Some(400);
                    let sg = if c.is_max() { 1.0 } else { -1.0 };
                    c.target = Some(sg * 5.0);
                    let w2 = w.clone();
                    let pol: RPol = Box::new(move |q| {
                        let o = w2.get(q.run).copied().unwrap_or(0);
                        let g = q.idx / lam;
                        match o {
                            // near miss
                            1 if g == 2 => sg * f64::from_bits(5f64.to_bits() - 1),
                            2 if g == 2 && q.idx % lam == 1 => sg * 5.0,
                            3 if g == 2 && q.idx % lam == lam - 1 => f64::NAN,
                            4 if g == 3 => sg * (5.0 + (q.idx % 2) as f64),
                            5 if q.idx == 0 => sg * 5.0,
                            _ => hash01(3, q.total as u64),
                        }
                    });
                    match go(&c, Entry::Run, pol) {
                        Ok(o) => {
                            account(ctx, &c, Entry::Run, &o, None, &format!("outcomes {:?}", w));
                            fp_out(ctx, &o);
                        }
                        Err(er) => ctx.viol("run", format!("{} ({:?})", er, c)),
                    }
                    ctx.count("outcome_words", 1);
                }
            }));
        }
    }
    // per-run limits, both together, all small values
    for s in strats() {
        for e in ENTRIES {
            jobs.push(job(format!("limits/{}/{:?}", sid(s), e), move |ctx| {
                let lam = RCfg::new(s, 1).lambda0();
                let ev: Vec<Option<usize>> = std::iter::once(None).chain([0, 1, lam - 1, lam, lam + 1, 2 * lam, 3 * lam - 1, 40].into_iter().map(Some)).collect();
                for re in &ev {
                    for rg in [None, Some(0usize), Some(1), Some(2), Some(7)] {
                        if re.is_none() && rg.is_none() {
                            continue;
                        }
                        for me in [Some(0usize), Some(37), Some(tier.pick(150, 400))] {
                            let mut c = RCfg::new(s, 1);
                            c.run_evals = *re;
                            c.run_gens = rg;
                            c.max_evals = me;
                            match pool(1).install(|| go(&c, e, fpol(sphere))) {
                                Ok(o) => {
                                    account(ctx, &c, e, &o, None, "limits");
                                    fp_out(ctx, &o);
                                }
                                Err(er) => ctx.viol("run", format!("{} ({:?})", er, c)),
                            }
                        }
                    }
                }
            }));
        }
    }
    jobs
}

// ---------------------------------------------------------------------------------------------
// P24

pub fn p24(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let alpha = [f64::NEG_INFINITY, -1.0, 1.0, f64::INFINITY];
    // all words of per-run best values
    for s in strats() {
        for mode in MODES {
            jobs.push(job(format!("bests/{}/{}", sid(s), mname(mode)), move |ctx| {
                let depth = tier.pick(4, 6);
                for w in sequences(alpha.len(), depth) {
                    if ctx.full() {
                        return;
                    }
                    // where in the run the extreme value is seen
                    for pos in [0usize, 6] {
                        let mut c = RCfg::new(s, 1);
                        c.mode = Some(mode);
                        c.run_gens = Some(2);
                        c.max_evals = Some(depth * 8);
                        let w2 = w.clone();
                        let ismax = c.is_max();
                        let pol: RPol = Box::new(move |q| {
                            let v = w2.get(q.run).copied().map_or(0.5, |i| alpha[i]);
                            if q.idx == pos {
                                v
                            } else if ismax {
                                v.min(f64::MAX) - hash01(2, q.idx as u64).abs() * 0.5 - 0.1
                            } else {
                                v.max(f64::MIN) + hash01(2, q.idx as u64).abs() * 0.5 + 0.1
                            }
                        });
                        match go(&c, Entry::Run, pol) {
                            Ok(o) => {
                                account(ctx, &c, Entry::Run, &o, None, &format!("bests {:?} at {}", w, pos));
                                fp_out(ctx, &o);
                            }
                            Err(er) => ctx.viol("run", format!("{} ({:?})", er, c)),
                        }
                        ctx.count("best_words", 1);
                    }
                }
            }));
        }
    }
    // an invalid value at every evaluation of a history, all entry points (sequential ones exactly at that evaluation)
    for s in strats() {
        for e in ENTRIES {
            for mode in MODES {
                jobs.push(job(format!("invalid/{}/{:?}/{}", sid(s), e, mname(mode)), move |ctx| {
                    let total = tier.pick(60, 200);
                    for at in 0..total {
                        let mut c = RCfg::new(s, 1);
                        c.mode = Some(mode);
                        c.run_gens = Some(3);
                        c.max_evals = Some(total);
                        let r = pool(1).install(|| {
                            go(&c, e, Box::new(move |q| if q.total == at { f64::NAN } else { hash01(4, q.total as u64) }))
                        });
                        match r {
                            Ok(o) => {
                                account(ctx, &c, e, &o, None, &format!("invalid at {}", at));
                                fp_out(ctx, &o);
                            }
                            Err(er) => ctx.viol("run", format!("{} ({:?})", er, c)),
                        }
                        ctx.count("invalid_positions", 1);
                    }
                }));
            }
        }
    }
    // the four entry points agree bit for bit
    for s in strats() {
        for mode in MODES {
            for seed in 0..tier.pick(3u64, 10) {
                jobs.push(job(format!("entries/{}/{}/s{}", sid(s), mname(mode), seed), move |ctx| {
                    for (name, f) in FNS {
                        let mut c = RCfg::new(s, 2);
                        c.mode = Some(mode);
                        c.seed = Some(seed);
                        c.run_gens = Some(30);
                        c.max_evals = Some(tier.pick(2500, 8000));
                        let mut first: Option<Out> = None;
                        for e in ENTRIES {
                            let r = pool(if seed % 2 == 0 { 1 } else { 4 }).install(|| go(&c, e, fpol(f)));
                            let o = match r {
                                Ok(o) => o,
                                Err(er) => {
                                    ctx.viol("run", format!("{} ({:?})", er, c));
                                    continue;
                                }
                            };
                            account(ctx, &c, e, &o, None, name);
                            fp_out(ctx, &o);
                            if let Some(a) = &first {
                                let same = a.res.runs == o.res.runs
                                    && a.res.function_evals == o.res.function_evals
                                    && a.res.reason == o.res.reason
                                    && match (&a.res.best, &o.res.best) {
                                        (None, None) => true,
                                        (Some(x), Some(y)) => x.value.to_bits() == y.value.to_bits() && bits(x.point.as_slice(), y.point.as_slice()),
                                        _ => false,
                                    }
                                    && a.info.len() == o.info.len()
                                    && a.info.iter().zip(&o.info).all(|(x, y)| x.seed == y.seed && x.lambda == y.lambda && x.evals == y.evals && x.reasons == y.reasons);
                                if !same {
                                    ctx.viol("entry-points", format!("{:?} differs from Run on {}: {:?} vs {:?} ({:?})", e, name, o.res, a.res, c));
                                }
                            } else {
                                first = Some(o);
                            }
                        }
                    }
                }));
            }
        }
    }
    jobs
}

// ---------------------------------------------------------------------------------------------
// P25

pub fn p25(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let mut ss = vec![
        Strat::Local(5, None),
        Strat::Local(5, Some(0.01)),
        Strat::Local(5, Some(3.0)),
        Strat::IpopDefault,
        Strat::Ipop(1),
        Strat::Ipop(2),
        Strat::BipopDefault,
        Strat::Bipop(None, None),
        Strat::Bipop(Some(0.7), None),
        Strat::Bipop(Some(0.05), Some(1)),
        Strat::Bipop(None, Some(2)),
    ];
    if tier == Tier::Thorough {
        ss.extend([Strat::Ipop(3), Strat::Bipop(None, Some(3))]);
    }
    // all words of run lengths to a depth, then to the end of the strategy
    for s in ss {
        let bip = matches!(s, Strat::Bipop(..) | Strat::BipopDefault);
        for (li, lim) in [None, Some(60usize), Some(9)].into_iter().enumerate() {
            for n in [1usize, 2] {
                jobs.push(job(format!("lengths/{}/lim{}/n{}", sid(s), li, n), move |ctx| {
                    let mut c = RCfg::new(s, n);
                    c.run_evals = lim;
                    let lam = c.lambda0();
                    let lens = [0usize, 4, 60];
                    let depth = if bip { tier.pick(4, 6) } else { 2 };
                    for w in sequences(lens.len(), depth) {
                        if ctx.full() {
                            return;
                        }
                        let lw: Vec<usize> = w.iter().map(|i| lens[*i]).collect();
                        c.seed = Some(w.iter().fold(1, |a, b| a * 3 + *b as u64));
                        // deep ends are cut; the unlimited ones are explored for a few words
                        c.max_evals = if w.iter().skip(2).all(|i| *i == 0) { None } else { Some(tier.pick(4000, 20000)) };
                        if matches!(s, Strat::Ipop(3) | Strat::Bipop(_, Some(3))) {
                            c.max_evals = Some(40_000);
                        }
                        match go(&c, Entry::Run, lens_pol(lw.clone(), lam)) {
                            Ok(o) => {
                                schedule(ctx, &c, &o, &format!("lengths {:?}", lw));
                                account(ctx, &c, Entry::Run, &o, None, &format!("lengths {:?}", lw));
                                fp_out(ctx, &o);
                                ctx.count("runs_checked", o.info.len() as u64);
                                ctx.sample(|| json!({"strategy": format!("{:?}", s), "lengths": lw, "runs": o.info.iter().map(|i| json!([i.lambda, i.sigma0, i.evals])).collect::<Vec<_>>()}));
                            }
                            Err(er) => ctx.viol("run", format!("{} ({:?})", er, c)),
                        }
                    }
                }));
            }
        }
    }
    // ranges x factors x dimensions
    for (ri, r) in [(-1.0, 1.0), (1.0, -1.0), (0.0, 1e-3), (100.0, 101.0), (-1e6, 1e6), (-3.0, -1.0), (0.0, 1e-12), (-1e12, 5e12)].into_iter().enumerate() {
        for s in [Strat::Local(2, None), Strat::Local(2, Some(0.9)), Strat::Local(2, Some(40.0)), Strat::IpopDefault, Strat::Ipop(3), Strat::BipopDefault, Strat::Bipop(Some(2.5), Some(3)), Strat::Bipop(Some(1e-3), None)] {
            jobs.push(job(format!("ranges/{}/{}", ri, sid(s)), move |ctx| {
                for n in tier.pick(vec![1usize, 2, 5], vec![1, 2, 3, 5, 8, 13]) {
                    for lam in [None, Some(2usize), Some(7)] {
                        let mut c = RCfg::new(s, n);
                        c.range = r;
                        c.run_gens = Some(3);
                        c.max_evals = Some(tier.pick(600, 2000));
                        if let Some(l) = lam {
                            let mut d = Cfg::new(vec![0.0; n], 1.0);
                            d.lambda = Some(l);
                            c.defaults = Some(d);
                        }
                        match go(&c, Entry::Run, Box::new(|q| hash01(q.run as u64, q.idx as u64))) {
                            Ok(o) => {
                                schedule(ctx, &c, &o, "ranges");
                                fp_out(ctx, &o);
                                ctx.count("runs_checked", o.info.len() as u64);
                            }
                            Err(er) => ctx.viol("run", format!("{} ({:?})", er, c)),
                        }
                    }
                }
            }));
        }
    }
    // the random choices of local runs use their whole range (over all explored seeds)
    jobs.push(job("bipop-spread", move |ctx| {
        let mut sig = vec![];
        let mut lam = std::collections::BTreeSet::new();
        for seed in 0..tier.pick(40u64, 120) {
            let mut c = RCfg::new(Strat::BipopDefault, 1);
            c.seed = Some(seed);
            c.run_gens = Some(6);
            c.max_evals = Some(1500);
            match go(&c, Entry::Run, Box::new(|q| hash01(q.run as u64, q.idx as u64))) {
                Ok(o) => {
                    let pl = schedule(ctx, &c, &o, "spread");
                    for ((p, s), i) in pl.iter().zip(&o.info) {
                        if p.lr {
                            sig.push(s / p.sigma.1);
                            if p.lambda.1 >= 4 * p.lambda.0 {
                                // position in the admissible range
                                lam.insert((i.lambda - p.lambda.0) * 4 / (p.lambda.1 - p.lambda.0 + 1));
                            }
                        }
                    }
                    fp_out(ctx, &o);
                }
                Err(er) => ctx.viol("run", format!("{} ({:?})", er, c)),
            }
        }
        ctx.count("local_runs", sig.len() as u64);
        let lo = sig.iter().filter(|s| **s < 0.1).count();
        let hi = sig.iter().filter(|s| **s > 0.1).count();
        let top = sig.iter().filter(|s| **s > 0.5).count();
        let bot = sig.iter().filter(|s| **s < 0.02).count();
        if sig.len() < 100 || lo * 5 < sig.len() || hi * 5 < sig.len() || top * 40 < sig.len() || bot * 40 < sig.len() {
            ctx.viol("sigma-spread", format!("step size factors of local runs do not spread over [0.01, 1]: {} runs, {} below 0.02, {} below 0.1, {} above 0.5", sig.len(), bot, lo, top));
        }
        if lam.len() < 4 {
            ctx.viol("lambda-spread", format!("population sizes of local runs only fall into the quarters {:?} of their range", lam));
        }
    }));
    jobs
}

// ---------------------------------------------------------------------------------------------
// P26

fn same_out(a: &Out, b: &Out) -> bool {
    a.info.len() == b.info.len()
        && a.res.reason == b.res.reason
        && a.runs.len() == b.runs.len()
        && a.info.iter().zip(&b.info).all(|(x, y)| x.seed == y.seed && x.lambda == y.lambda && x.evals == y.evals && x.reasons == y.reasons)
        && a.runs.iter().zip(&b.runs).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| bits(&p.x, &q.x)))
}

/// Compares every run with a plain optimiser built from the default options and what the restarter decides
fn twins(ctx: &mut Ctx, cfg: &RCfg, o: &Out, script: &dyn Fn(usize) -> Pol, what: &str, gens: usize) {
    let mut m = Sched::new(cfg);
    // Constraints hide the deviates of rejected points: take the start from the same restarter without them (the
    // starts of local runs of BIPOP depend on the history, so only its first run is compared)
    let mut bare = None;
    let bip = matches!(cfg.strat, Strat::Bipop(..) | Strat::BipopDefault);
    if cfg.defaults.as_ref().map_or(false, |d| d.constraints.is_some()) {
        let mut c = cfg.clone();
        c.defaults.as_mut().unwrap().constraints = None;
        c.run_gens = Some(1);
        c.run_evals = None;
        match go(&c, Entry::Run, Box::new(|q| q.idx as f64)) {
            Ok(b) => bare = Some(b),
            Err(e) => return ctx.viol("run", e),
        }
    }
    for (k, (i, calls)) in o.info.iter().zip(&o.runs).enumerate() {
        let p = m.plan();
        m.after(calls.len());
        if bare.is_some() && bip && k > 0 {
            break;
        }
        let start = match &bare {
            None => recover(cfg.n, i, calls),
            Some(b) if k < b.info.len() => {
                if b.info[k].seed != i.seed {
                    ctx.viol("run-seed", format!("{}: run {} has another seed with constraints ({:?})", what, k + 1, cfg));
                }
                recover(cfg.n, &b.info[k], &b.runs[k])
            }
            _ => break,
        };
        let (mean, sigma) = match start {
            Ok(x) => x,
            Err(e) => {
                ctx.viol("points", format!("{}: run {}: {} ({:?})", what, k + 1, e, cfg));
                continue;
            }
        };
        let mut t = cfg.defaults.clone().unwrap_or_else(|| Cfg::new(vec![0.0; cfg.n], 1.0));
        t.mean = mean;
        t.sigma = if p.sigma.0 == p.sigma.1 { p.sigma.0 } else { sigma };
        t.lambda = Some(i.lambda);
        t.seed = Some(i.seed);
        t.mode = cfg.mode;
        t.par_update = Some(false);
        t.max_evals = p.limit;
        t.max_gens = cfg.run_gens;
        t.fun_target = cfg.target;
        t.print = None;
        t.plot = None;
        let mut r = Run::new(&t, script(k)).auto();
        let mut at = 0;
        let mut g = 0;
        let mut why = vec![];
        let mut cmp = true;
        loop {
            let st = r.next();
            for c in &st.calls {
                let Some(d) = calls.get(at) else {
                    ctx.viol("run-shorter", format!("{}: run {} ended with {:?} after {} evaluations; a plain optimiser with the default options goes on ({:?})", what, k + 1, i.reasons, calls.len(), cfg));
                    return;
                };
                at += 1;
                if !cmp {
                    continue;
                }
                let scale = c.x.iter().fold(0f64, |a, b| a.max(b.abs())) + t.sigma;
                let off = c.x.iter().zip(&d.x).any(|(a, b)| (a - b).abs() > 1e-7 * scale);
                if off && g < gens {
                    ctx.viol("run-options", format!("{}: run {} evaluates {:?} in generation {}; a plain optimiser with the default options {:?} ({:?})", what, k + 1, d.x, g + 1, c.x, cfg));
                    return;
                } else if off {
                    cmp = false;
                }
            }
            g += 1;
            if let Some(t) = &st.out {
                why = rset(&Some(t.clone()));
                break;
            }
        }
        if at != calls.len() {
            ctx.viol("run-longer", format!("{}: run {} made {} evaluations ({:?}), a plain optimiser {} ({:?}) ({:?})", what, k + 1, calls.len(), i.reasons, at, why, cfg));
            return;
        }
        let mut w = why.clone();
        w.sort();
        if w != i.reasons {
            ctx.viol("run-reasons", format!("{}: run {} ended for {:?}, a plain optimiser for {:?} ({:?})", what, k + 1, i.reasons, why, cfg));
        }
        ctx.trace();
        ctx.trans(g as u64);
    }
}

fn in_range(ctx: &mut Ctx, cfg: &RCfg, o: &Out, what: &str) -> Vec<Vec<f64>> {
    let (lo, hi) = (cfg.range.0.min(cfg.range.1), cfg.range.0.max(cfg.range.1));
    let mut r = vec![];
    for (k, (i, calls)) in o.info.iter().zip(&o.runs).enumerate() {
        if let Ok((m, s)) = recover(cfg.n, i, calls) {
            let tol = 1e-11 * (s * 10.0 + lo.abs().max(hi.abs()));
            if m.iter().any(|x| *x < lo - tol || *x > hi + tol) {
                ctx.viol("mean-range", format!("{}: run {} starts at {:?}, outside of [{}, {}] ({:?})", what, k + 1, m, lo, hi, cfg));
            }
            r.push(m);
        }
    }
    let mut seen = std::collections::HashSet::new();
    for (k, i) in o.info.iter().enumerate() {
        if !seen.insert(i.seed) {
            ctx.viol("seed-shared", format!("{}: run {} has the seed {} of an earlier run ({:?})", what, k + 1, i.seed, cfg));
        }
    }
    for a in 0..r.len() {
        for b in 0..a {
            if r[a] == r[b] {
                ctx.viol("mean-shared", format!("{}: runs {} and {} start at the same point ({:?})", what, b + 1, a + 1, cfg));
            }
        }
        // coordinates are drawn separately
        if r[a].len() > 1 && r[a].windows(2).all(|w| close(w[0], w[1], 1e-9)) {
            ctx.viol("mean-diagonal", format!("{}: run {} starts at {:?} ({:?})", what, a + 1, r[a], cfg));
        }
    }
    r
}

#[derive(Clone, Debug)]
struct BoxC(f64, f64);
impl cmaes::Constraints for BoxC {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        x.iter().all(|v| *v >= self.0 && *v <= self.1)
    }
    fn clone_box(&self) -> Box<dyn cmaes::Constraints> {
        Box::new(self.clone())
    }
}

const RSET: usize = 11;

/// Setters of the restart options; `v` selects among the values
fn rapply(o: RestartOptions, k: usize, v: usize) -> RestartOptions {
    match k {
        0 => o.mode([Mode::Maximize, Mode::Minimize, Mode::Maximize][v]),
        1 => o.parallel_update([true, false, true][v]),
        2 => o.default_options(rdefaults(v)),
        3 => o.fun_target([-3.0, 0.0, f64::INFINITY][v]),
        4 => o.max_function_evals([150, 0, usize::MAX][v]),
        5 => o.max_time([Duration::from_secs(3600), Duration::from_secs(7200), Duration::MAX][v]),
        6 => o.max_function_evals_per_run([31, 0, usize::MAX][v]),
        7 => o.max_generations_per_run([7, 0, usize::MAX][v]),
        8 => o.enable_printing([true, false, true][v]),
        9 => o.seed([77, 0, u64::MAX][v]),
        _ => o.seed([78, 1, u64::MAX - 1][v]),
    }
}

fn rdefaults(v: usize) -> CMAESOptions {
    let o = CMAESOptions::new(vec![0.5; 2], 2.0);
    match v {
        0 => o.population_size(5).max_generations(3).seed(1).mode(Mode::Maximize).fun_target(1.0).max_function_evals(9),
        1 => o,
        _ => o.cm(0.5).tol_x(0.1).parallel_update(true).enable_printing(10),
    }
}

/// What a setter is documented to do
fn rassign(o: &mut RestartOptions, k: usize, v: usize) {
    match k {
        0 => o.mode = [Mode::Maximize, Mode::Minimize, Mode::Maximize][v],
        1 => o.parallel_update = [true, false, true][v],
        2 => o.default_options = rdefaults(v),
        3 => o.fun_target = Some([-3.0, 0.0, f64::INFINITY][v]),
        4 => o.max_function_evals = Some([150, 0, usize::MAX][v]),
        5 => o.max_time = Some([Duration::from_secs(3600), Duration::from_secs(7200), Duration::MAX][v]),
        6 => o.max_function_evals_per_run = Some([31, 0, usize::MAX][v]),
        7 => o.max_generations_per_run = Some([7, 0, usize::MAX][v]),
        8 => o.enable_printing = [true, false, true][v],
        9 => o.seed = Some([77, 0, u64::MAX][v]),
        _ => o.seed = Some([78, 1, u64::MAX - 1][v]),
    }
}

/// Settings of the restarter: every sequence of setters to a length, and every order of groups of them run
fn setter_jobs(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    for first in 0..RSET {
        jobs.push(job(format!("setters/{}", first), move |ctx| {
            let menu: Vec<(usize, usize)> = (0..RSET).flat_map(|k| (0..3).map(move |v| (k, v))).collect();
            let base = || RestartOptions::new(2, -1.0..=2.0, Strat::BipopDefault.build().unwrap());
            for v in 0..3 {
                for len in 0..=tier.pick(2, 3) {
                    for s in sequences(menu.len(), len) {
                        let seq: Vec<(usize, usize)> = std::iter::once((first, v)).chain(s.iter().map(|i| menu[*i])).collect();
                        let mut o = base();
                        for (k, v) in &seq {
                            o = rapply(o, *k, *v);
                        }
                        // the last setting of each option, in another order
                        let mut e = base();
                        let mut last: Vec<(usize, usize)> = vec![];
                        for (k, v) in &seq {
                            // both of the last two set the seed
                            last.retain(|(k2, _)| (*k2).min(9) != (*k).min(9));
                            last.push((*k, *v));
                        }
                        last.sort();
                        for (k, v) in last.iter().rev() {
                            rassign(&mut e, *k, *v);
                        }
                        let (a, b) = (format!("{:?}", o), format!("{:?}", e));
                        ctx.trans(seq.len() as u64);
                        ctx.state(Fp::new(&a).0);
                        ctx.trace();
                        if a != b {
                            ctx.viol("setters", format!("setters {:?}: options are {}, expected {}", seq, a, b));
                            return;
                        }
                    }
                }
            }
        }));
    }
    for (gi, group) in [[0usize, 2, 3, 4, 9], [2, 4, 6, 7, 9], [0, 3, 4, 7, 9], [1, 2, 4, 5, 9], [2, 3, 4, 6, 9]].into_iter().enumerate() {
        jobs.push(job(format!("setter-orders/{}", gi), move |ctx| {
            for s in [Strat::Local(4, None), Strat::IpopDefault, Strat::BipopDefault] {
                let mut reference: Option<String> = None;
                for p in permutations(5) {
                    let mut o = RestartOptions::new(2, -1.0..=2.0, s.build().unwrap());
                    for i in &p {
                        o = rapply(o, group[*i], 0);
                    }
                    let mut xs = vec![];
                    let r = o.build().expect("valid options").run_with_reuse(|x: &DVector<f64>| {
                        xs.extend(x.iter().map(|v| v.to_bits()));
                        x.norm_squared()
                    });
                    let got = format!("{:?} {:?}", r, xs);
                    ctx.trans(r.function_evals as u64);
                    ctx.trace();
                    ctx.state(Fp::new(&got).u(gi as u64).0);
                    match &reference {
                        None => reference = Some(got),
                        Some(r) if *r == got => (),
                        Some(r) => {
                            ctx.viol("setter-orders", format!("setters {:?} in order {:?} under {:?}: {:.300} instead of {:.300}", group, p, s, got, r));
                            return;
                        }
                    }
                }
            }
        }));
    }
    jobs
}

pub fn p26(tier: Tier) -> Vec<Job> {
    let mut jobs = setter_jobs(tier);
    let ss = [Strat::Local(4, None), Strat::IpopDefault, Strat::BipopDefault, Strat::Bipop(Some(1.0), Some(1))];
    // reproducible, printed or not; different seeds differ
    for s in ss {
        for seed in 0..tier.pick(6u64, 24) {
            jobs.push(job(format!("repro/{}/{}", sid(s), seed), move |ctx| {
                for (name, f) in FNS {
                    for n in [1usize, 3] {
                        let mut c = RCfg::new(s, n);
                        c.seed = Some(if seed == 5 { u64::MAX } else { seed });
                        c.run_gens = Some(25);
                        c.max_evals = Some(1500);
                        let (a, b) = match (go(&c, Entry::Run, fpol(f)), go(&c, Entry::Run, fpol(f))) {
                            (Ok(a), Ok(b)) => (a, b),
                            (Err(e), _) | (_, Err(e)) => return ctx.viol("run", e),
                        };
                        if Some(a.seed) != c.seed {
                            ctx.viol("seed", format!("reports the seed {} ({:?})", a.seed, c));
                        }
                        if !same_out(&a, &b) {
                            ctx.viol("reproducible", format!("two equal restarters differ on {}: {:?} vs {:?} ({:?})", name, a.res, b.res, c));
                        }
                        in_range(ctx, &c, &a, name);
                        let want = format!("seed={}", a.seed);
                        if !a.header.starts_with(s.name()) || !a.header.ends_with(&want) || !a.header.contains(&format!("dimension={}", n)) {
                            ctx.viol("header", format!("prints {:?} ({:?})", a.header, c));
                        }
                        // without printing
                        let log = Arc::new(Mutex::new(RLog { runs: vec![], total: 0, pol: fpol(f), factory: 0 }));
                        let l2 = log.clone();
                        let r = c.options(false).build().unwrap();
                        let (res, text) = capture(|| {
                            r.run(move || {
                                let mut g = l2.lock().unwrap();
                                g.runs.push(vec![]);
                                RObj { run: g.runs.len() - 1, log: l2.clone() }
                            })
                        });
                        let g = log.lock().unwrap();
                        let same = g.runs.len() == a.runs.len() && g.runs.iter().zip(&a.runs).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| bits(&p.x, &q.x)));
                        if !same || res.reason != a.res.reason || res.function_evals != a.res.function_evals {
                            ctx.viol("printing-disturbs", format!("printing changes the runs on {} ({:?})", name, c));
                        }
                        if !text.is_empty() {
                            ctx.viol("prints", format!("prints {:?} although printing is disabled ({:?})", text, c));
                        }
                        let mut d = c.clone();
                        d.seed = Some(c.seed.unwrap().wrapping_add(1));
                        if let Ok(b) = go(&d, Entry::Run, fpol(f)) {
                            if b.runs[0][0].x == a.runs[0][0].x {
                                ctx.viol("seed-ignored", format!("seeds {} and {} start alike ({:?})", a.seed, b.seed, c));
                            }
                        }
                        fp_out(ctx, &a);
                        fp_out(ctx, &b);
                    }
                }
            }));
        }
        // a seed chosen at random reproduces
        jobs.push(job(format!("random-seed/{}", sid(s)), move |ctx| {
            let mut seen = std::collections::HashSet::new();
            for _ in 0..6 {
                let mut c = RCfg::new(s, 2);
                c.seed = None;
                c.run_gens = Some(10);
                c.max_evals = Some(400);
                let a = match go(&c, Entry::Run, fpol(rastr)) {
                    Ok(a) => a,
                    Err(e) => return ctx.viol("run", e),
                };
                if !seen.insert(a.seed) {
                    ctx.viol("random-seed", "two restarters without a seed use the same one");
                }
                c.seed = Some(a.seed);
                match go(&c, Entry::Run, fpol(rastr)) {
                    Ok(b) => {
                        if !same_out(&a, &b) {
                            ctx.viol("reproducible", format!("the reported seed {} does not reproduce the runs", a.seed));
                        }
                    }
                    Err(e) => return ctx.viol("run", e),
                }
                ctx.trans(2);
            }
        }));
    }
    // every default option reaches every run
    let mut defs: Vec<(String, Cfg)> = vec![];
    let d = |n: usize| Cfg::new(vec![0.0; n], 1.0);
    for n in [1usize, 2, 4] {
        let mut add = |name: &str, c: Cfg| defs.push((format!("{}-n{}", name, n), c));
        add("plain", d(n));
        for w in WS {
            add(&format!("w-{}", wname(w)), d(n).w(w).lam(9));
        }
        add("lambda", d(n).lam(5));
        add("cm", d(n).cm(0.4));
        let mut c = d(n);
        c.constraints = Some(Box::new(BoxC(-1.0, 1.5)));
        c.max_resamples = Some(None);
        add("box", c);
        let mut c = d(n);
        c.constraints = Some(Box::new(BoxC(-1.0, 1.5)));
        c.max_resamples = Some(Some(1));
        add("box-once", c);
        for (nm, v) in [("tight", 1e-14), ("loose", 0.9)] {
            let mut c = d(n);
            c.tol_fun = Some(v);
            add(&format!("tolfun-{}", nm), c);
            let mut c = d(n);
            c.tol_fun_hist = Some(v);
            add(&format!("tolfunhist-{}", nm), c);
            let mut c = d(n);
            c.tol_fun_rel = Some(v);
            add(&format!("tolfunrel-{}", nm), c);
            let mut c = d(n);
            c.tol_x = Some(v);
            add(&format!("tolx-{}", nm), c);
        }
        let mut c = d(n);
        c.tol_stag = Some(20);
        add("stag", c);
        let mut c = d(n);
        c.tol_x_up = Some(1.05);
        add("tolxup", c);
        let mut c = d(n);
        c.tol_cond = Some(1.5);
        add("cond", c);
        // limits of the default options do not count
        let mut c = d(n);
        c.max_evals = Some(1);
        c.max_gens = Some(1);
        c.fun_target = Some(1e9);
        c.mode = Some(Mode::Maximize);
        c.seed = Some(3);
        add("overridden", c);
        let mut c = d(n).no_tol();
        c.max_gens = Some(2);
        add("no-tol", c);
        // dimension of the default mean is irrelevant
        let mut c = Cfg::new(vec![3.0; n + 2], 1.0);
        c.lambda = Some(6);
        add("other-mean", c);
    }
    for (name, dcfg) in defs {
        let n: usize = name.rsplit("-n").next().unwrap().parse().unwrap();
        for s in ss {
            let dcfg = dcfg.clone();
            jobs.push(job(format!("defaults/{}/{}", name, sid(s)), move |ctx| {
                for mode in [None, Some(Mode::Minimize), Some(Mode::Maximize)] {
                    // runs limited by generations or by evaluations only
                    for (pi, script, by_gens) in [(0usize, "hash", true), (1, "flat", true), (2, "index", true), (0, "hash", false), (1, "flat", false)] {
                        let mut c = RCfg::new(s, n);
                        c.range = (-0.5, 1.0);
                        c.mode = mode;
                        c.defaults = Some(dcfg.clone());
                        if by_gens {
                            c.run_gens = Some(45);
                        } else {
                            c.run_evals = Some(250);
                        }
                        c.max_evals = Some(tier.pick(900, 3000));
                        c.seed = Some(31 + pi as u64);
                        // answers depend on the position in the run only
                        let val = move |idx: usize| match pi {
                            0 => hash01(17, idx as u64),
                            1 => 2.0 + if idx < 12 { hash01(5, idx as u64) } else { 0.0 },
                            _ => (idx % 7) as f64 * 1e-3 + 1.0 / (1.0 + idx as f64),
                        };
                        let o = match go(&c, Entry::Run, Box::new(move |q| val(q.idx))) {
                            Ok(o) => o,
                            Err(e) => return ctx.viol("run", format!("{} ({:?})", e, c)),
                        };
                        if dcfg.constraints.is_none() {
                            in_range(ctx, &c, &o, script);
                        }
                        let mk = move |_k: usize| -> Pol {
                            let mut idx = 0;
                            Box::new(move |_q: &Q| {
                                let v = val(idx);
                                idx += 1;
                                v
                            })
                        };
                        // points under constraints depend on rejections near the boundary: rounding could flip one, so the
                        // comparison stays exact only as long as no point lies within rounding of the boundary (it never does here)
                        twins(ctx, &c, &o, &mk, script, if n == 1 { 8 } else { 4 });
                        fp_out(ctx, &o);
                        ctx.count("default_option_sets", 1);
                    }
                }
            }));
        }
    }
    // a time limit among the default options applies to every single run
    for s in ss {
        jobs.push(job(format!("default-time/{}", sid(s)), move |ctx| {
            for limit_s in [0u64, 1, 2, 5, 6, 7, 19, 40, 1000] {
                for n in [1usize, 2, 4] {
                    for entry in [Entry::Run, Entry::Reuse] {
                        let mut c = RCfg::new(s, n);
                        let mut d = Cfg::new(vec![0.0; n], 1.0);
                        d.max_time = Some(Duration::from_secs(limit_s));
                        c.defaults = Some(d);
                        c.run_gens = Some(12);
                        c.max_evals = Some(tier.pick(700, 2500));
                        let r = with_virtual_clock(|| {
                            go(
                                &c,
                                entry,
                                Box::new(|q| {
                                    advance_ns(1_000_000_000);
                                    hash01(9, q.total as u64)
                                }),
                            )
                        });
                        match r {
                            Ok(o) => {
                                for (k, (i, r)) in o.info.iter().zip(&o.runs).enumerate() {
                                    // one second per evaluation
                                    let gens = (limit_s as usize).div_ceil(i.lambda).max(1);
                                    let timed = i.reasons.iter().any(|r| r == "MaxTime");
                                    if timed != (r.len() as u64 >= limit_s) || r.len() > gens * i.lambda {
                                        ctx.viol("default-time", format!("run {} with a time limit of {} s per run takes {} s and ends with {:?} ({:?} {:?})", k + 1, limit_s, r.len(), i.reasons, entry, c));
                                    }
                                }
                                fp_out(ctx, &o);
                            }
                            Err(er) => ctx.viol("run", format!("{} ({:?})", er, c)),
                        }
                    }
                }
            }
        }));
    }
    // means cover the range
    for (ri, r) in [(-2.0, 3.0), (5.0, 4.0), (0.0, 1e-6), (1e5, 1e5 + 1.0)].into_iter().enumerate() {
        jobs.push(job(format!("means/{}", ri), move |ctx| {
            let mut all = vec![];
            for seed in 0..tier.pick(20u64, 100) {
                for s in [Strat::Local(6, None), Strat::BipopDefault] {
                    let mut c = RCfg::new(s, 3);
                    c.range = r;
                    c.seed = Some(seed);
                    c.run_gens = Some(1);
                    c.max_evals = Some(60);
                    match go(&c, Entry::Run, Box::new(|q| q.idx as f64)) {
                        Ok(o) => {
                            all.extend(in_range(ctx, &c, &o, "means"));
                            fp_out(ctx, &o);
                        }
                        Err(e) => return ctx.viol("run", e),
                    }
                }
            }
            let (lo, hi) = (r.0.min(r.1), r.0.max(r.1));
            for k in 0..3 {
                let mut bins = [0; 10];
                for m in &all {
                    let b = (((m[k] - lo) / (hi - lo)) * 10.0).floor().clamp(0.0, 9.0) as usize;
                    bins[b] += 1;
                }
                if all.len() > 150 && bins.iter().any(|b| *b == 0) {
                    ctx.viol("mean-spread", format!("initial means in coordinate {} never fall into part of the range {:?}: tenths {:?} of {}", k, r, bins, all.len()));
                }
            }
            ctx.count("initial_means", all.len() as u64);
        }));
    }
    jobs
}

// ---------------------------------------------------------------------------------------------
// P27

pub fn p27(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let ends = [f64::NEG_INFINITY, -f64::MAX, -1e300, -1e8, -1.0, -f64::MIN_POSITIVE, -5e-324, 0.0, 5e-324, 1e-320, f64::MIN_POSITIVE, 1.0, f64::from_bits(1f64.to_bits() + 1), 1e8, 1e300, f64::MAX, f64::INFINITY, f64::NAN];
    // acceptance, by the constructor and by the field
    jobs.push(job("accept", move |ctx| {
        for a in ends {
            for b in ends {
                for n in [0usize, 1, 3] {
                    for s in [Strat::Local(1, None), Strat::IpopDefault, Strat::BipopDefault] {
                        for by_field in [false, true] {
                            let size = (b - a).abs();
                            let bad_range = !(size > 0.0 && size.is_finite());
                            let want = if n == 0 || bad_range { Err(()) } else { Ok(()) };
                            let mut o = RestartOptions::new(n, if by_field { 0.0..=1.0 } else { a..=b }, s.build().unwrap());
                            if by_field {
                                o.search_range = a..=b;
                            }
                            match guarded(|| o.build()) {
                                Err(p) => ctx.viol("panic", format!("building with n={} range=({:e}, {:e}) panicked: {}", n, a, b, p)),
                                Ok(r) => {
                                    if r.is_ok() != want.is_ok() {
                                        ctx.viol("accept", format!("n={} range=({:e}, {:e}): {:?}", n, a, b, r.as_ref().err()));
                                    }
                                    if let Err(e) = r {
                                        let right = (e == InvalidRestartOptionsError::Dimensions && n == 0) || (e == InvalidRestartOptionsError::SearchRange && bad_range);
                                        if !right {
                                            ctx.viol("accept-error", format!("n={} range=({:e}, {:e}) rejected with {:?}", n, a, b, e));
                                        }
                                    }
                                }
                            }
                            ctx.trans(1);
                            let mut f = Fp::new("accept");
                            f.f(a).f(b).u(n as u64);
                            ctx.state(f.0);
                        }
                    }
                }
            }
        }
    }));
    // default options that no run can be built with, by the builder and by the field; the mean and the step size are replaced
    jobs.push(job("accept default options", move |ctx| {
        let cms = [None, Some(f64::NAN), Some(f64::NEG_INFINITY), Some(-1.0), Some(-0.0), Some(0.0), Some(5e-324), Some(1e-310), Some(f64::MIN_POSITIVE), Some(0.5), Some(1.0), Some(f64::from_bits(1f64.to_bits() + 1)), Some(2.0), Some(f64::INFINITY)];
        for pop in [None, Some(0usize), Some(1), Some(2), Some(3), Some(7)] {
            for cm in cms {
                for (sigma, mean) in [(0.5, vec![0.0; 2]), (0.0, vec![0.0; 2]), (f64::NAN, vec![]), (-1.0, vec![f64::NAN; 3]), (f64::INFINITY, vec![1e300])] {
                    for s in [Strat::Local(0, None), Strat::Local(2, None), Strat::IpopDefault, Strat::Ipop(1), Strat::BipopDefault, Strat::Bipop(Some(1.0), Some(3))] {
                        for by_field in [false, true] {
                            let ok = pop.map_or(true, |p| p >= 2) && cm.map_or(true, |c| c.is_normal() && c > 0.0 && c <= 1.0);
                            let mut d = CMAESOptions::new(mean.clone(), sigma);
                            d.population_size = 4;
                            if let Some(p) = pop {
                                d.population_size = p;
                            }
                            if let Some(c) = cm {
                                d.cm = c;
                            }
                            let mut o = RestartOptions::new(2, -1.0..=1.0, s.build().unwrap()).max_generations_per_run(2).max_function_evals(60).seed(9);
                            if by_field {
                                o.default_options = d;
                            } else {
                                o = o.default_options(d);
                            }
                            let text = format!("default options with population {:?}, cm {:?}, sigma {:e}, mean {:?} ({:?})", pop, cm, sigma, mean, s);
                            match guarded(|| o.build()) {
                                Err(p) => ctx.viol("panic", format!("building with {} panicked: {}", text, p)),
                                Ok(Err(e)) => {
                                    if ok || e == InvalidRestartOptionsError::Dimensions || e == InvalidRestartOptionsError::SearchRange {
                                        ctx.viol("accept-error", format!("{}: rejected with {:?}", text, e));
                                    }
                                }
                                Ok(Ok(r)) => {
                                    if !ok {
                                        ctx.viol("accept", format!("{}: accepted", text));
                                    } else if let Err(p) = guarded(|| r.run_with_reuse(|x: &DVector<f64>| x.norm_squared())) {
                                        ctx.viol("run", format!("{}: {}", text, p));
                                    }
                                }
                            }
                            ctx.trans(1);
                            let mut f = Fp::new("accept-defaults");
                            f.u(pop.map_or(99, |p| p as u64)).f(cm.unwrap_or(-7.0)).f(sigma);
                            ctx.state(f.0);
                        }
                    }
                }
            }
        }
        ctx.trace();
    }));
    // strategies
    let facs = [f64::NAN, f64::NEG_INFINITY, f64::INFINITY, -1.0, -0.0, 0.0, 5e-324, 1e-320, f64::MIN_POSITIVE, 1e-300, 1e-3, 1.0, 1e300, f64::MAX];
    jobs.push(job("strategies", move |ctx| {
        for f in std::iter::once(None).chain(facs.into_iter().map(Some)) {
            let fok = f.map_or(true, |f| f.is_normal() && f > 0.0);
            for m in [0usize, 1, usize::MAX] {
                let r = Local::new(m, f);
                if r.is_ok() != fok || r.as_ref().err().map_or(false, |e| *e != InvalidRestartStrategyOptionsError::InitialStepSize) {
                    ctx.viol("strategy-accept", format!("Local::new({}, {:?}) gives {:?}", m, f, r.err()));
                }
                ctx.trans(1);
            }
            for k in [None, Some(0usize), Some(1), Some(2), Some(usize::MAX)] {
                let ok = fok && k != Some(0);
                let r = BIPOP::new(f, k);
                let right = match &r {
                    Ok(_) => ok,
                    Err(InvalidRestartStrategyOptionsError::InitialStepSize) => !fok,
                    Err(InvalidRestartStrategyOptionsError::PopulationSize) => k == Some(0),
                };
                if !right {
                    ctx.viol("strategy-accept", format!("BIPOP::new({:?}, {:?}) gives {:?}", f, k, r.err()));
                }
                ctx.trans(1);
            }
        }
        for k in [0usize, 1, 2, 3, usize::MAX] {
            let r = IPOP::new(k);
            if r.is_ok() != (k != 0) || r.as_ref().err().map_or(false, |e| *e != InvalidRestartStrategyOptionsError::PopulationSize) {
                ctx.viol("strategy-accept", format!("IPOP::new({}) gives {:?}", k, r.err()));
            }
        }
        ctx.state(1);
        ctx.trace();
    }));
    // every accepted combination runs
    for (ai, a) in ends.into_iter().enumerate() {
        for (bi, b) in ends.into_iter().enumerate() {
            let size = (b - a).abs();
            if !(size > 0.0 && size.is_finite()) {
                continue;
            }
            jobs.push(job(format!("extreme/{}-{}", ai, bi), move |ctx| {
                let mut ss = vec![];
                for f in std::iter::once(None).chain(facs.into_iter().filter(|f| f.is_normal() && *f > 0.0).map(Some)) {
                    ss.push(Strat::Local(3, f));
                    ss.push(Strat::Bipop(f, Some(2)));
                }
                ss.push(Strat::IpopDefault);
                ss.push(Strat::Ipop(1));
                for s in ss {
                    for n in tier.pick(vec![1usize, 2], vec![1, 2, 5]) {
                        for (re, rg, mx) in [(None, Some(6usize), Some(150usize)), (Some(0), None, Some(100)), (Some(7), None, None), (None, None, Some(tier.pick(60, 500)))] {
                            if mx.is_none() && !matches!(s, Strat::Local(..)) {
                                continue;
                            }
                            for (pi, f) in [sphere as fn(&[f64]) -> f64, lin].into_iter().enumerate() {
                                let mut c = RCfg::new(s, n);
                                c.range = (a, b);
                                c.run_evals = re;
                                c.run_gens = rg;
                                c.max_evals = mx;
                                // where the step size may overflow, nothing is claimed about the criteria that would end a run
                                let factor = match s {
                                    Strat::Local(_, f) | Strat::Bipop(f, _) => f.unwrap_or(1.0),
                                    _ => 1.0,
                                };
                                if size * factor > 1e290 && re.is_none() && rg.is_none() {
                                    c.run_gens = Some(40);
                                }
                                if pi == 1 {
                                    c.mode = Some(Mode::Maximize);
                                }
                                match go(&c, Entry::Run, Box::new(move |q| {
                                    let v = f(q.x);
                                    if v.is_nan() { f64::INFINITY } else { v }
                                })) {
                                    Ok(o) => {
                                        account(ctx, &c, Entry::Run, &o, None, "extreme");
                                        fp_out(ctx, &o);
                                        ctx.count("configurations_run", 1);
                                        // points are numbers as long as the range is moderate
                                        if size < 1e100 && o.runs.iter().filter_map(|r| r.first()).any(|p| p.x.iter().any(|v| v.is_nan())) {
                                            ctx.viol("nan-point", format!("a first point is NaN ({:?})", c));
                                        }
                                    }
                                    Err(e) => ctx.viol("run", format!("{} ({:?})", e, c)),
                                }
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    // default options: the smallest populations, extreme tolerances and learning rates, step sizes that are replaced anyway
    for (di, pop) in [None, Some(2usize), Some(3), Some(5), Some(17)].into_iter().enumerate() {
        jobs.push(job(format!("default options/{}", di), move |ctx| {
            for s in [Strat::Local(3, None), Strat::Local(2, Some(1e300)), Strat::IpopDefault, Strat::Ipop(1), Strat::BipopDefault, Strat::Bipop(Some(1e-300), Some(1)), Strat::Bipop(Some(2.0), Some(3))] {
                for var in 0..9usize {
                    for seed in 0..tier.pick(6u64, 40) {
                        let n = 1 + seed as usize % 3;
                        let mut d = Cfg::new(vec![0.0; n], 1.0);
                        d.lambda = pop;
                        d.seed = None;
                        match var {
                            0 => {}
                            1 => d.cm = Some(f64::MIN_POSITIVE),
                            2 => d.sigma = 0.0,
                            3 => d.sigma = f64::NAN,
                            4 => {
                                d.tol_fun = Some(f64::INFINITY);
                                d.tol_x = Some(f64::INFINITY);
                            }
                            5 => {
                                d.tol_fun = Some(f64::NAN);
                                d.tol_x_up = Some(f64::NAN);
                                d.tol_cond = Some(f64::NAN);
                                d.tol_stag = Some(0);
                            }
                            6 => d.weights = Some(cmaes::Weights::Uniform),
                            7 => d.weights = Some(cmaes::Weights::Positive),
                            // a mean of another dimension, which is replaced
                            _ => d.mean = vec![f64::NAN; n + 2],
                        }
                        let mut c = RCfg::new(s, n);
                        c.seed = Some(seed);
                        c.run_gens = Some(6);
                        c.max_evals = Some(400 * (1 + seed as usize % 3));
                        c.defaults = Some(d);
                        c.mode = Some(MODES[seed as usize % 2]);
                        match go(&c, ENTRIES[(seed as usize + var) % ENTRIES.len()], fpol(sphere)) {
                            Ok(o) => {
                                if o.res.runs == 0 {
                                    ctx.viol("run", format!("no run ({:?})", c));
                                }
                                fp_out(ctx, &o);
                                ctx.count("configurations_run", 1);
                            }
                            Err(e) => ctx.viol("run", format!("{} ({:?})", e, c)),
                        }
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }
        }));
    }
    // huge population factors, as far as the populations stay small: the run that would need a large one is never reached
    jobs.push(job("factors", move |ctx| {
        for k in [1usize, 2, 3, 50, 1 << 31, usize::MAX / 4, usize::MAX - 1, usize::MAX] {
            for s in [Strat::Ipop(k), Strat::Bipop(None, Some(k)), Strat::Bipop(Some(1e-3), Some(k))] {
                for n in [1usize, 3] {
                    for gens in [1usize, 5] {
                        let mut c = RCfg::new(s, n);
                        c.run_gens = Some(gens);
                        let lam = c.lambda0();
                        // BIPOP makes local runs until they have used as much as the first run
                        let budgets = if k > 50 { vec![1, lam, lam * gens] } else { vec![1, lam * gens, lam * gens + 1, lam * (gens + k * gens)] };
                        for b in budgets {
                            c.max_evals = Some(b);
                            for e in ENTRIES {
                                match pool(1).install(|| go(&c, e, fpol(sphere))) {
                                    Ok(o) => {
                                        account(ctx, &c, e, &o, None, "factors");
                                        fp_out(ctx, &o);
                                    }
                                    Err(er) => ctx.viol("run", format!("{} ({:?})", er, c)),
                                }
                            }
                        }
                    }
                }
            }
        }
    }));
    // flipped ranges are accepted as if given in order
    jobs.push(job("flipped", move |ctx| {
        for (a, b) in [(-1.0, 2.0), (0.0, 1e-300), (-1e10, 1.0), (3.0, 4.0)] {
            for s in [Strat::Local(3, None), Strat::IpopDefault, Strat::BipopDefault] {
                for n in [1usize, 3] {
                    let mk = |r: (f64, f64), field: bool| {
                        let mut c = RCfg::new(s, n);
                        c.range = r;
                        c.run_gens = Some(5);
                        c.max_evals = Some(200);
                        let mut o = c.options(false);
                        if field {
                            o.search_range = r.0..=r.1;
                        }
                        let log = Arc::new(Mutex::new(RLog { runs: vec![], total: 0, pol: fpol(sphere), factory: 0 }));
                        let l2 = log.clone();
                        let res = o.build().unwrap().run(move || {
                            let mut g = l2.lock().unwrap();
                            g.runs.push(vec![]);
                            RObj { run: g.runs.len() - 1, log: l2.clone() }
                        });
                        let g = log.lock().unwrap();
                        (res.runs, g.runs.iter().flatten().map(|c| c.x.clone()).collect::<Vec<_>>())
                    };
                    let x = mk((a, b), false);
                    for (r, f) in [((b, a), false), ((b, a), true), ((a, b), true)] {
                        let y = mk(r, f);
                        if x.0 != y.0 || x.1.len() != y.1.len() || x.1.iter().zip(&y.1).any(|(p, q)| !bits(p, q)) {
                            ctx.viol("flipped", format!("range {:?} (set as field: {}) differs from ({}, {}), {:?} n={}", r, f, a, b, s, n));
                        }
                        ctx.trans(1);
                        ctx.trace();
                    }
                }
            }
        }
        ctx.state(2);
    }));
    // run counts
    jobs.push(job("counts", move |ctx| {
        for m in [0usize, 1, 2, 7, 30] {
            for n in [1usize, 2, 10] {
                let mut c = RCfg::new(Strat::Local(m, None), n);
                c.run_gens = Some(2);
                match go(&c, Entry::Run, fpol(sphere)) {
                    Ok(o) => {
                        account(ctx, &c, Entry::Run, &o, None, "counts");
                        fp_out(ctx, &o);
                        if o.res.runs != m {
                            ctx.viol("counts", format!("{} runs of {} ({:?})", o.res.runs, m, c));
                        }
                    }
                    Err(e) => ctx.viol("run", format!("{} ({:?})", e, c)),
                }
            }
        }
    }));
    jobs
}
