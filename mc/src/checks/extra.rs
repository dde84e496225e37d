//! P33 convergence of default runs, P34 panicking callbacks, P35 memory.

use super::core::{cfg_fp, fp_step};
use super::dist::model_of;
use super::parallel::pool;
use super::restart::{Entry, Strat, ENTRIES};
use crate::rt::*;
use crate::sim::*;
use cmaes::objective_function::{ObjectiveFunction, ParallelObjectiveFunction, Scale};
use cmaes::restart::RestartOptions;
use cmaes::{fmax, fmax_parallel, fmin, fmin_parallel, Bounds, Constraints, DVector, Mode};
use serde_json::json;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------------------------------------
// P33

/// Convex functions with minimum 0 at the origin
#[derive(Clone, Copy, Debug, PartialEq)]
enum Conv {
    Sphere,
    /// sum of 10^(c i/(n-1)) x_i^2
    Elli(i32),
    RotElli(i32),
    Cigar,
    Discus,
    L1,
    Norm,
    DiffPow,
}

/// Reflection that mixes all coordinates
fn reflect(x: &[f64]) -> Vec<f64> {
    let vv: f64 = (1..=x.len()).map(|i| (i * i) as f64).sum();
    let d: f64 = x.iter().enumerate().map(|(i, a)| (i + 1) as f64 * a).sum();
    x.iter().enumerate().map(|(i, a)| a - 2.0 * (i + 1) as f64 * d / vv).collect()
}

impl Conv {
    fn value(self, x: &[f64]) -> f64 {
        let n = x.len();
        let frac = |i: usize| if n > 1 { i as f64 / (n as f64 - 1.0) } else { 0.0 };
        let elli = |x: &[f64], c: i32| (0..n).map(|i| 10f64.powf(c as f64 * frac(i)) * x[i] * x[i]).sum::<f64>();
        match self {
            Conv::Sphere => elli(x, 0),
            Conv::Elli(c) => elli(x, c),
            Conv::RotElli(c) => elli(&reflect(x), c),
            Conv::Cigar => {
                let y = reflect(x);
                y[0] * y[0] + 1e6 * y[1..].iter().map(|a| a * a).sum::<f64>()
            }
            Conv::Discus => {
                let y = reflect(x);
                1e6 * y[0] * y[0] + y[1..].iter().map(|a| a * a).sum::<f64>()
            }
            Conv::L1 => x.iter().map(|a| a.abs()).sum(),
            Conv::Norm => x.iter().map(|a| a * a).sum::<f64>().sqrt(),
            Conv::DiffPow => (0..n).map(|i| x[i].abs().powf(2.0 + 4.0 * frac(i))).sum(),
        }
    }
}

const CONVS: [Conv; 10] = [
    Conv::Sphere,
    Conv::Elli(2),
    Conv::Elli(6),
    Conv::RotElli(3),
    Conv::RotElli(6),
    Conv::Cigar,
    Conv::Discus,
    Conv::L1,
    Conv::Norm,
    Conv::DiffPow,
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Var {
    /// minimum at (c, -c/2, ...), started at the origin with this step size
    Shifted(f64, f64),
    /// a box with the minimum inside, started inside
    Boxed,
    /// points beyond x_0 = -0.5 have an infinite value, points beyond x_last = 6 too
    Walls,
    RunParallel,
    ParUpdate,
    /// every third generation one evaluation is infinite
    InfNow,
}

const VARIANTS: [Var; 10] = [
    Var::Shifted(100.0, 30.0),
    Var::Shifted(3000.0, 1.0),
    Var::Shifted(20.0, 1e-3),
    Var::Shifted(1e-3, 1e-3),
    Var::Shifted(1.0, 100.0),
    Var::Boxed,
    Var::Walls,
    Var::RunParallel,
    Var::ParUpdate,
    Var::InfNow,
];

fn variant_run(ctx: &mut Ctx, f: Conv, var: Var, n: usize, w: cmaes::Weights, mode: Mode, seed: u64) {
    let sgn = if mode == Mode::Maximize { -1.0 } else { 1.0 };
    let (c, start, sigma) = match var {
        Var::Shifted(c, s) => (c, 0.0, s),
        _ => (0.0, 2.0, 0.7),
    };
    let at: Vec<f64> = (0..n).map(|i| if i % 2 == 0 { c } else { -c * 0.5 }).collect();
    let mut cfg = Cfg::new((0..n).map(|i| if i % 2 == 0 { start } else { -start * 0.5 }).collect(), sigma).seed(seed).w(w).mode(mode);
    match var {
        Var::Boxed => cfg.constraints = Some(Box::new(Bounds { lower: vec![-2.0; n], upper: vec![5.0; n] })),
        Var::ParUpdate => cfg.par_update = Some(true),
        _ => {}
    }
    let lambda = cfg.lambda();
    // the guard of three times what runs need
    let budget = 2400 + 2200 * n;
    cfg.max_evals = Some(budget);
    let calls = Arc::new(AtomicUsize::new(0));
    let c2 = calls.clone();
    let obj = move |x: &DVector<f64>| {
        let k = c2.fetch_add(1, Ordering::Relaxed);
        if var == Var::Walls && (x[0] < -0.5 || x[n - 1] > 6.0) || var == Var::InfNow && (k / lambda) % 3 == 1 && k % lambda == (k / lambda) % 2 {
            return sgn * f64::INFINITY;
        }
        let y: Vec<f64> = x.iter().zip(&at).map(|(x, a)| x - a).collect();
        sgn * f.value(&y)
    };
    let mut es = cfg.options().build(obj).expect("valid configuration");
    let r = if var == Var::RunParallel { es.run_parallel() } else { es.run() };
    let s = Snap::of(&es);
    let mut fp = Fp(cfg_fp(&cfg));
    s.fp(&mut fp);
    ctx.state(fp.0);
    ctx.trans(s.gen as u64);
    ctx.trace();
    let what = || format!("{:?} {:?} n={} lambda={} seed={} {:?} {:?}", f, var, n, lambda, seed, w, mode);
    ctx.sample(|| json!({"run": what(), "evaluations": s.evals, "reasons": format!("{:?}", r.reasons)}));
    if std::env::var("MC_P33").is_ok() {
        eprintln!("RATIO {:.3} {} {:?}", s.evals as f64 / budget as f64, what(), r.reasons);
    }
    let Some(b) = r.overall_best else {
        ctx.viol("no-result", format!("{}: no best individual", what()));
        return;
    };
    let v = sgn * b.value;
    if calls.load(Ordering::Relaxed) >= budget {
        ctx.viol("slow", format!("{}: not finished after {} evaluations, value {:e}", what(), budget, v));
    } else if !(v <= if c > 1e3 { 1e-2 } else { 1e-8 }) {
        // (far from the origin rounding of the coordinates ends runs earlier)
        ctx.viol("not-converged", format!("{}: stopped with {:?} after {} evaluations at value {:e}", what(), r.reasons, s.evals, v));
    }
}

pub fn p33(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    let dims: Vec<usize> = tier.pick(vec![1, 2, 3, 4, 5, 7, 10, 16], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 30, 40]);
    for f in CONVS {
        for n in dims.clone() {
            for w in WS {
                js.push(job(format!("convex {:?} n={} w={}", f, n, wname(w)), move |ctx| {
                    let seeds: u64 = ctx.tier.pick(if n > 7 { 3 } else { 8 }, if n > 16 { 6 } else { 60 });
                    // starts: (coordinate, step size)
                    for (si, (m, sg)) in [(3.0, 1.0), (0.1, 0.5), (-50.0, 2.0)].into_iter().enumerate() {
                        for seed in 0..seeds {
                            for mode in MODES {
                                for big in [false, true] {
                                    if big && (seed + si as u64) % 2 == 1 {
                                        continue;
                                    }
                                    let mut cfg = Cfg::new((0..n).map(|i| if i % 2 == 0 { m } else { -m * 0.7 }).collect(), sg).seed(seed).w(w).mode(mode);
                                    if big {
                                        cfg = cfg.lam(3 * (4 + (3.0 * (n as f64).ln()).floor() as usize));
                                    }
                                    let lambda = cfg.lambda();
                                    let sgn = if mode == Mode::Maximize { -1.0 } else { 1.0 };
                                    // the guard of three times what runs need
                                    let budget = (3000 + 3500 * n + if n > 10 { 250 * n * n } else { 0 }) * if big { 3 } else { 1 };
                                    cfg.max_evals = Some(budget);
                                    let calls = Arc::new(AtomicUsize::new(0));
                                    let c2 = calls.clone();
                                    let obj = move |x: &DVector<f64>| {
                                        c2.fetch_add(1, Ordering::Relaxed);
                                        sgn * f.value(x.as_slice())
                                    };
                                    let mut es = cfg.options().build(obj).expect("valid configuration");
                                    let r = es.run();
                                    let s = Snap::of(&es);
                                    let mut fp = Fp(cfg_fp(&cfg));
                                    s.fp(&mut fp);
                                    ctx.state(fp.0);
                                    ctx.trans(s.gen as u64);
                                    ctx.trace();
                                    let what = || format!("{:?} from {:?} step size {} lambda={} seed={} {:?} {:?}", f, cfg.mean, cfg.sigma, lambda, seed, w, mode);
                                    ctx.sample(|| json!({"run": what(), "evaluations": s.evals, "reasons": format!("{:?}", r.reasons)}));
                                    let Some(b) = r.overall_best else {
                                        ctx.viol("no-result", format!("{}: no best individual", what()));
                                        continue;
                                    };
                                    let v = sgn * b.value;
                                    if calls.load(Ordering::Relaxed) >= budget {
                                        ctx.viol("slow", format!("{}: not finished after {} evaluations, value {:e}", what(), budget, v));
                                    } else if !(v <= 1e-8) {
                                        ctx.viol("not-converged", format!("{}: stopped with {:?} after {} evaluations at value {:e}", what(), r.reasons, s.evals, v));
                                    } else if f != Conv::DiffPow && b.point.iter().any(|x| x.abs() > 1e-3) {
                                        ctx.viol("not-converged", format!("{}: best point {:?}", what(), b.point.as_slice()));
                                    } else if r.final_mean.iter().any(|x| x.abs() > if f == Conv::DiffPow { 0.2 } else { 1e-3 }) {
                                        ctx.viol("mean-not-converged", format!("{}: final mean {:?}", what(), r.final_mean.as_slice()));
                                    }
                                    if ctx.full() {
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }));
            }
        }
    }
    // other places, other starts, constraints, parallel evaluation and update
    for f in CONVS {
        for (vi, var) in VARIANTS.into_iter().enumerate() {
            for n in tier.pick(vec![1usize, 2, 3, 6], vec![1, 2, 3, 4, 6, 10]) {
                js.push(job(format!("variant {:?} {:?} n={}", var, f, n), move |ctx| {
                    let seeds: u64 = ctx.tier.pick(4, 40);
                    for seed in 0..seeds {
                        for w in WS {
                            let mode = MODES[(seed as usize + vi) % 2];
                            variant_run(ctx, f, var, n, w, mode, seed);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }));
            }
        }
    }
    // an unbounded function: the step size grows until TolXUp says so
    for n in [1usize, 2, 3, 5, 10] {
        for w in WS {
            js.push(job(format!("unbounded n={} w={}", n, wname(w)), move |ctx| {
                let seeds: u64 = ctx.tier.pick(12, 100);
                for seed in 0..seeds {
                    for mode in MODES {
                        for par in [false, true] {
                            let mut cfg = Cfg::new(vec![0.3; n], 0.1).seed(seed).w(w).mode(mode);
                            cfg.max_evals = Some(20_000 + 6_000 * n);
                            let sgn = if mode == Mode::Maximize { -1.0 } else { 1.0 };
                            let obj = move |x: &DVector<f64>| sgn * x.iter().enumerate().map(|(i, v)| (i + 1) as f64 * v).sum::<f64>();
                            let mut es = cfg.options().build(obj).expect("valid configuration");
                            let r = if par { es.run_parallel() } else { es.run() };
                            ctx.trans(es.generation() as u64);
                            ctx.trace();
                            let mut fp = Fp(cfg_fp(&cfg));
                            Snap::of(&es).fp(&mut fp);
                            ctx.state(fp.0);
                            if !r.reasons.contains(&TR::TolXUp) || sgn * r.overall_best.as_ref().map_or(0.0, |b| b.value) > -100.0 {
                                ctx.viol(
                                    "not-diverged",
                                    format!("linear function n={} {:?} {:?} seed={}: stopped with {:?} after {} evaluations at {:?}", n, w, mode, seed, r.reasons, es.function_evals(), r.overall_best.map(|b| b.value)),
                                );
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // a multimodal function through restarts
    for n in [1usize, 2, 3] {
        for strat in if n == 1 { vec![Strat::BipopDefault, Strat::IpopDefault, Strat::Local(400, None)] } else { vec![Strat::BipopDefault, Strat::IpopDefault] } {
            js.push(job(format!("multimodal n={} {:?}", n, strat), move |ctx| {
                let seeds: u64 = ctx.tier.pick(10, 100);
                for seed in 0..seeds {
                    for mode in MODES {
                        let sgn = if mode == Mode::Maximize { -1.0 } else { 1.0 };
                        // minimum 0 at 1.5
                        let f = move |x: &DVector<f64>| sgn * x.iter().map(|v| v - 1.5).map(|v| 10.0 + v * v - 10.0 * (2.0 * std::f64::consts::PI * v).cos()).sum::<f64>();
                        let r = RestartOptions::new(n, -5.0..=5.0, strat.build().unwrap())
                            .mode(mode)
                            .fun_target(sgn * 1e-6)
                            .max_function_evals(4_000_000)
                            .seed(seed)
                            .build()
                            .expect("valid configuration")
                            .run(|| f);
                        ctx.trans(r.runs as u64);
                        ctx.trace();
                        let mut fp = Fp::new("multi");
                        fp.u(n as u64).u(seed).u(r.function_evals as u64).s(&format!("{:?}{:?}", strat, mode));
                        ctx.state(fp.0);
                        ctx.count("restart_runs", r.runs as u64);
                        let ok = r.best.as_ref().map_or(false, |b| sgn * b.value <= 1e-6 && b.point.iter().all(|v| (v - 1.5).abs() < 1e-3));
                        if !ok {
                            ctx.viol(
                                "optimum-missed",
                                format!("{:?} n={} seed={} {:?}: ended with {:?} after {} runs and {} evaluations at {:?}", strat, n, seed, mode, r.reason, r.runs, r.function_evals, r.best),
                            );
                            return;
                        }
                    }
                }
            }));
        }
    }
    js
}

// ---------------------------------------------------------------------------------------------
// P34

#[derive(Debug, PartialEq, Clone, Copy)]
struct Marker(u64);

enum Caught<T> {
    Done(T),
    Ours(u64),
    Other(String),
}

fn catch<T>(f: impl FnOnce() -> T) -> Caught<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Caught::Done(v),
        Err(p) => match p.downcast_ref::<Marker>() {
            Some(m) => Caught::Ours(m.0),
            None => Caught::Other(last_panic()),
        },
    }
}

/// Constraints that panic when the k-th question of the optimiser is asked
#[derive(Debug)]
struct Touchy {
    asked: Arc<AtomicUsize>,
    at: Arc<AtomicUsize>,
}

impl Constraints for Touchy {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let k = self.asked.fetch_add(1, Ordering::SeqCst);
        if k == self.at.load(Ordering::SeqCst) {
            panic_any(Marker(1_000_000 + k as u64));
        }
        x[0] <= 1.0
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(Touchy { asked: self.asked.clone(), at: self.at.clone() })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Next,
    /// next_parallel on a pool of so many threads
    Par(usize),
}

/// Steps through `faults` (per step: the evaluation of the step that panics), comparing every completed generation with
/// the model
fn fault_walk(ctx: &mut Ctx, cfg: &Cfg, via: Via, pl: Option<&rayon::ThreadPool>, faults: &[Option<usize>], kind: Kind, what: &dyn Fn() -> String) {
    let id = cfg_fp(cfg);
    let plan: Arc<Vec<Option<usize>>> = Arc::new(faults.to_vec());
    let p2 = plan.clone();
    let pol: Pol = Box::new(move |q| {
        if p2.get(q.step).cloned().flatten() == Some(q.idx) {
            panic_any(Marker((q.step * 1000 + q.idx) as u64));
        }
        kind_value(kind, q)
    });
    let mut r = Run::new(cfg, pol);
    let mut m = model_of(cfg);
    let mut evaluated = 0;
    for (g, fault) in faults.iter().enumerate() {
        let before = r.last.clone();
        let plot = r.es.get_plot().map(|p| p.len());
        let (res, text) = if cfg.print.is_some() {
            capture(|| step_caught(&mut r, via, pl))
        } else {
            (step_caught(&mut r, via, pl), String::new())
        };
        ctx.trans(1);
        match (fault, res) {
            (None, Caught::Done(st)) => {
                fp_step(ctx, id, &st);
                evaluated += st.calls.len();
                if st.after.gen != before.gen + 1 || st.calls.len() != cfg.lambda() {
                    ctx.viol("not-continued", format!("{} step {}: generation {} after {} with {} evaluations", what(), g, st.after.gen, before.gen, st.calls.len()));
                    return;
                }
                let posdef = has(&st.out, TR::PosDefCov);
                if posdef || has(&st.out, TR::InvalidFunctionValue) {
                    ctx.viol("not-continued", format!("{} step {}: {:?}", what(), g, reasons(&st.out)));
                    return;
                }
                if via == Via::Next {
                    for d in m.step(&st.before, &st.calls, &st.after, posdef) {
                        ctx.viol("wrong-continuation", format!("{} step {}: {}", what(), g, d.msg));
                        return;
                    }
                }
            }
            (Some(i), Caught::Ours(k)) => {
                if k != (g * 1000 + i) as u64 {
                    ctx.viol("payload", format!("{} step {}: payload {} instead of {}", what(), g, k, g * 1000 + i));
                    return;
                }
                let after = Snap::of(&r.es);
                let done = r.obj.0.lock().unwrap_or_else(|e| e.into_inner()).calls.len();
                if !after.same_dist(&before) || !after.same_bests(&before) || after.evals < before.evals || after.evals > before.evals + done + 1 {
                    ctx.viol("state-after-panic", format!("{} step {}: after the panic {:?}, before {:?}", what(), g, after, before));
                    return;
                }
                evaluated += done;
                if via == Via::Next && done != *i {
                    ctx.viol("calls-after-panic", format!("{} step {}: {} evaluations completed in a generation that panicked at evaluation {}", what(), g, done, i));
                    return;
                }
                if r.es.get_plot().map(|p| p.len()) != plot {
                    ctx.viol("plot-after-panic", format!("{} step {}: a plot point was recorded in a generation that panicked", what(), g));
                    return;
                }
                if !text.is_empty() {
                    ctx.viol("printed-after-panic", format!("{} step {}: printed {:?}", what(), g, text));
                    return;
                }
                r.last = after;
                r.step += 1;
                ctx.count("panics_survived", 1);
            }
            (f, Caught::Done(st)) => {
                ctx.viol("panic-swallowed", format!("{} step {}: a panic at evaluation {:?} did not reach the caller: {:?}", what(), g, f, reasons(&st.out)));
                return;
            }
            (f, Caught::Ours(k)) => {
                ctx.viol("late-panic", format!("{} step {} (fault {:?}): payload {}", what(), g, f, k));
                return;
            }
            (f, Caught::Other(p)) => {
                ctx.viol("other-panic", format!("{} step {} (fault {:?}): {}", what(), g, f, p));
                return;
            }
        }
    }
    ctx.count("evaluations", evaluated as u64);
    ctx.trace();
}

/// Lends an optimiser to the thread pool although its type does not say that is fine
struct Lend<'a>(&'a mut Run);
unsafe impl Send for Lend<'_> {}
impl Lend<'_> {
    fn next_parallel(self) -> Step {
        self.0.next_parallel()
    }
}

struct SendStep(Step);
unsafe impl Send for SendStep {}

fn step_caught(r: &mut Run, via: Via, pl: Option<&rayon::ThreadPool>) -> Caught<Step> {
    match via {
        Via::Next => catch(|| r.next()),
        Via::Par(_) => {
            let l = Lend(r);
            match catch(|| pl.unwrap().install(move || SendStep(l.next_parallel()))) {
                Caught::Done(s) => Caught::Done(s.0),
                Caught::Ours(k) => Caught::Ours(k),
                Caught::Other(s) => Caught::Other(s),
            }
        }
    }
}

/// Objective that panics at one evaluation, shared between runs
#[derive(Clone)]
struct Bomb {
    calls: Arc<AtomicUsize>,
    at: usize,
    seen: Arc<Mutex<Vec<(Vec<f64>, f64)>>>,
}

impl Bomb {
    fn new(at: usize) -> Bomb {
        Bomb { calls: Default::default(), at, seen: Default::default() }
    }
    fn eval(&self, x: &DVector<f64>) -> f64 {
        let k = self.calls.fetch_add(1, Ordering::SeqCst);
        if k == self.at {
            panic_any(Marker(k as u64));
        }
        let f = x.iter().map(|v| (v - 0.3).powi(2)).sum();
        self.seen.lock().unwrap_or_else(|e| e.into_inner()).push((x.as_slice().to_vec(), f));
        f
    }
    fn count(&self) -> usize {
        self.calls.load(Ordering::SeqCst)
    }
}

impl ObjectiveFunction for Bomb {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.eval(x)
    }
}

impl ParallelObjectiveFunction for Bomb {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.eval(x)
    }
}

pub fn p34(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    // a) all words of faults to a depth
    for (lambda, depth) in tier.pick(vec![(2usize, 5usize), (3, 4), (4, 3), (5, 3)], vec![(2, 8), (3, 6), (4, 5), (5, 4), (7, 3)]) {
        for n in [1usize, 2, 3] {
            for w in WS {
                js.push(job(format!("words lambda={} depth={} n={} w={}", lambda, depth, n, wname(w)), move |ctx| {
                    let pools: Vec<rayon::ThreadPool> = [1usize, 2, 4].into_iter().map(pool).collect();
                    for word in sequences(lambda + 1, depth) {
                        let mut faults: Vec<Option<usize>> = word.iter().map(|c| if *c == 0 { None } else { Some(c - 1) }).collect();
                        faults.extend([None, None]);
                        let sum: usize = word.iter().sum();
                        let mut cfg = Cfg::quiet(n, lambda).w(w).mode(MODES[sum % 2]).seed(1 + sum as u64);
                        if sum % 3 == 0 {
                            cfg.plot = Some((0, false));
                        }
                        if sum % 4 == 0 {
                            cfg.par_update = Some(true);
                        }
                        if sum % 5 == 0 {
                            cfg.constraints = Some(Box::new(Bounds { lower: vec![-0.7; n], upper: vec![1.5; n] }));
                        }
                        let kind = [Kind::Sphere, Kind::Index, Kind::Lin(0, true), Kind::Rosen][sum % 4];
                        let what = || format!("faults {:?} {:?} n={} lambda={} {:?}", faults, kind, n, lambda, w);
                        ctx.sample(|| json!({"faults": format!("{:?}", faults), "n": n, "lambda": lambda}));
                        fault_walk(ctx, &cfg, Via::Next, None, &faults, kind, &what);
                        let k = sum % 3;
                        if ctx.tier == Tier::Thorough || word.iter().filter(|c| **c > 0).count() <= 2 {
                            fault_walk(ctx, &cfg, Via::Par([1, 2, 4][k]), Some(&pools[k]), &faults, kind, &what);
                        }
                        if ctx.full() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // b) one or two faults late in a long history (past eigen refreshes), with printing and plotting
    for n in [1usize, 2, 5, 10] {
        for w in WS {
            js.push(job(format!("late faults n={} w={}", n, wname(w)), move |ctx| {
                let lambda = 6;
                let gens = ctx.tier.pick(40, 150);
                for at in (0..gens).step_by(ctx.tier.pick(3, 1)) {
                    for i in [0, lambda / 2, lambda - 1] {
                        for again in [false, true] {
                            let mut faults = vec![None; gens + 6];
                            faults[at] = Some(i);
                            if again {
                                faults[at + 1] = Some(lambda - 1 - i);
                            }
                            let mut cfg = Cfg::quiet(n, lambda).w(w).mode(MODES[at % 2]).seed(at as u64).at(vec![0.4; n], 0.5);
                            if at % 2 == 0 {
                                cfg.plot = Some((at, false));
                                cfg.print = Some(3);
                            }
                            let what = || format!("fault in step {} evaluation {} n={} {:?}", at, i, n, w);
                            fault_walk(ctx, &cfg, Via::Next, None, &faults, Kind::Elli(3.0), &what);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // c) constraints that panic at every question
    for n in [1usize, 2, 3] {
        for par in [false, true] {
            js.push(job(format!("constraints n={} parallel={}", n, par), move |ctx| {
                for lambda in [2usize, 4, 7] {
                    for at in 0..ctx.tier.pick(40, 200) {
                        let asked = Arc::new(AtomicUsize::new(0));
                        let bomb = Arc::new(AtomicUsize::new(at));
                        let mut cfg = Cfg::quiet(n, lambda).seed(at as u64 + 1);
                        cfg.par_update = Some(par);
                        cfg.max_resamples = Some([None, Some(3)][at % 2]);
                        cfg.constraints = Some(Box::new(Touchy { asked: asked.clone(), at: bomb.clone() }));
                        let what = || format!("constraints panic at question {} n={} lambda={} parallel={}", at, n, lambda, par);
                        let mut r = Run::new(&cfg, kpol(Kind::Sphere));
                        let mut m = model_of(&cfg);
                        let mut hit = false;
                        for g in 0..60 {
                            let before = r.last.clone();
                            let questions = asked.load(Ordering::SeqCst);
                            ctx.trans(1);
                            match step_caught(&mut r, Via::Next, None) {
                                Caught::Done(st) => {
                                    fp_step(ctx, cfg_fp(&cfg), &st);
                                    let more = asked.load(Ordering::SeqCst) - questions;
                                    if more < lambda || (at % 2 == 0 && st.calls.iter().any(|c| c.x[0] > 1.0)) {
                                        ctx.viol("constraints-lost", format!("{} step {}: the constraints are asked about {} points, evaluated are {:?}", what(), g, more, st.calls));
                                        return;
                                    }
                                    if !par {
                                        if let Some(d) = m.step(&st.before, &st.calls, &st.after, has(&st.out, TR::PosDefCov)).first() {
                                            ctx.viol("wrong-continuation", format!("{} step {}: {}", what(), g, d.msg));
                                            return;
                                        }
                                    }
                                    if !hit && asked.load(Ordering::SeqCst) > at {
                                        ctx.viol("panic-swallowed", format!("{} step {}: the panic did not reach the caller", what(), g));
                                        return;
                                    }
                                }
                                Caught::Ours(k) => {
                                    let after = Snap::of(&r.es);
                                    let calls = r.obj.0.lock().unwrap_or_else(|e| e.into_inner()).calls.len();
                                    if k != 1_000_000 + at as u64 || hit || !after.same(&before) || calls != 0 {
                                        ctx.viol("state-after-panic", format!("{} step {}: after the panic {:?}, before {:?}, {} evaluations", what(), g, after, before, calls));
                                        return;
                                    }
                                    hit = true;
                                    r.step += 1;
                                    ctx.count("panics_survived", 1);
                                }
                                Caught::Other(p) => {
                                    ctx.viol("other-panic", format!("{} step {}: {}", what(), g, p));
                                    return;
                                }
                            }
                            if hit && g > 12 {
                                break;
                            }
                        }
                        ctx.trace();
                    }
                }
            }));
        }
    }
    // d) whole runs: the fault at every evaluation, then run on to the end
    for par in [false, true] {
        for n in [1usize, 2, 3] {
            js.push(job(format!("runs n={} parallel={}", n, par), move |ctx| {
                let lambda = 4;
                for at in 0..ctx.tier.pick(60, 240) {
                    let mut cfg = Cfg::new(vec![0.7; n], 0.5).lam(lambda).seed(3 + at as u64);
                    cfg.max_gens = Some(ctx.tier.pick(20, 70));
                    let bomb = Bomb::new(at);
                    // twin without fault
                    let calm = Bomb::new(usize::MAX);
                    let mut twin = cfg.options().build(calm.clone()).unwrap();
                    let mut es = cfg.options().build(bomb.clone()).unwrap();
                    let what = || format!("run n={} seed={} parallel={} panics at evaluation {}", n, cfg.seed.unwrap(), par, at);
                    let mut ended = false;
                    for _ in 0..at / lambda {
                        if twin.next().is_some() {
                            ended = true;
                            break;
                        }
                    }
                    ctx.trans(1);
                    let res = catch(|| if par { es.run_parallel() } else { es.run() });
                    let s = Snap::of(&es);
                    let mut fp = Fp(cfg_fp(&cfg));
                    s.fp(&mut fp);
                    ctx.state(fp.u(at as u64).0);
                    match res {
                        Caught::Done(r) => {
                            if !ended && bomb.count() > at {
                                ctx.viol("panic-swallowed", format!("{}: the panic did not reach the caller: {:?}", what(), r.reasons));
                                return;
                            }
                        }
                        Caught::Ours(k) => {
                            let t = Snap::of(&twin);
                            if k != at as u64 || !s.same_dist(&t) || !s.same_bests(&t) {
                                ctx.viol("state-after-panic", format!("{}: {:?}, the state at the start of that generation is {:?}", what(), s, t));
                                return;
                            }
                            ctx.count("panics_survived", 1);
                            // runs on
                            match catch(|| if par { es.run_parallel() } else { es.run() }) {
                                Caught::Done(r) => {
                                    if r.reasons.is_empty() || r.reasons.contains(&TR::InvalidFunctionValue) || es.generation() > cfg.max_gens.unwrap() {
                                        ctx.viol("not-continued", format!("{}: the continued run ends with {:?} in generation {}", what(), r.reasons, es.generation()));
                                        return;
                                    }
                                    let best = bomb.seen.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|c| c.1).fold(f64::INFINITY, f64::min);
                                    // the aborted generation may hold a better value
                                    if r.overall_best.map_or(true, |b| b.value < best) {
                                        ctx.viol("not-continued", format!("{}: the continued run reports a best value that was never seen", what()));
                                        return;
                                    }
                                }
                                _ => {
                                    ctx.viol("not-continued", format!("{}: the continued run panics: {}", what(), last_panic()));
                                    return;
                                }
                            }
                        }
                        Caught::Other(p) => {
                            ctx.viol("other-panic", format!("{}: {}", what(), p));
                            return;
                        }
                    }
                    ctx.trace();
                    // the objective, wrapped, is given back with its state
                    let b2 = Bomb::new(at);
                    let mut es = cfg.options().build(Scale::new(b2.clone(), vec![1.0; n])).unwrap();
                    let r = catch(|| if par { es.run_parallel() } else { es.run() });
                    if matches!(r, Caught::Ours(_)) {
                        let _ = es.into_objective_function();
                        if !par && b2.count() != at + 1 {
                            ctx.viol("calls-after-panic", format!("{}: {} calls", what(), b2.count()));
                            return;
                        }
                    } else if !ended && b2.count() > at {
                        ctx.viol("panic-swallowed", format!("{}: swallowed behind Scale", what()));
                        return;
                    }
                }
            }));
        }
    }
    // e) restarts, through all entry points, and the convenience functions
    for strat in [Strat::Local(3, None), Strat::IpopDefault, Strat::BipopDefault] {
        js.push(job(format!("restarts {:?}", strat), move |ctx| {
            let mk = |seed: u64| {
                RestartOptions::new(2, -1.0..=1.0, strat.build().unwrap()).max_generations_per_run(5).max_function_evals(150).seed(seed).build().unwrap()
            };
            for entry in ENTRIES {
                let reference = {
                    let b = Bomb::new(usize::MAX);
                    let r = run_entry(mk(7), entry, &b, usize::MAX);
                    (b.count(), r.function_evals, r.runs, r.best.map(|x| x.value.to_bits()))
                };
                for at in 0..ctx.tier.pick(100, 150) {
                    for factory in [false, true] {
                        let b = Bomb::new(if factory { usize::MAX } else { at });
                        if factory && (at > 6 || matches!(entry, Entry::Reuse | Entry::ParReuse)) {
                            continue;
                        }
                        ctx.trans(1);
                        let what = || format!("{:?} {:?} panics at {} {}", strat, entry, if factory { "request" } else { "evaluation" }, at);
                        match catch(|| run_entry(mk(7), entry, &b, if factory { at } else { usize::MAX })) {
                            Caught::Ours(k) => {
                                let want = if factory { 2_000_000 + at as u64 } else { at as u64 };
                                if k != want {
                                    ctx.viol("payload", format!("{}: payload {}", what(), k));
                                    return;
                                }
                                if !factory && matches!(entry, Entry::Run | Entry::Reuse) && b.count() != at + 1 {
                                    ctx.viol("calls-after-panic", format!("{}: {} calls", what(), b.count()));
                                    return;
                                }
                                ctx.count("panics_survived", 1);
                            }
                            Caught::Done(r) => {
                                if b.count() > at && !factory || factory && r.runs > at {
                                    ctx.viol("panic-swallowed", format!("{}: the panic did not reach the caller: {:?}", what(), r.reason));
                                    return;
                                }
                            }
                            Caught::Other(p) => {
                                ctx.viol("other-panic", format!("{}: {}", what(), p));
                                return;
                            }
                        }
                        // nothing is left behind
                        let b = Bomb::new(usize::MAX);
                        let r = run_entry(mk(7), entry, &b, usize::MAX);
                        let again = (b.count(), r.function_evals, r.runs, r.best.map(|x| x.value.to_bits()));
                        if again != reference {
                            ctx.viol("left-behind", format!("{}: a restarter run afterwards gives {:?} instead of {:?}", what(), again, reference));
                            return;
                        }
                        let mut f = Fp::new("restart-panic");
                        f.u(at as u64).u(entry as u64).u(b.count() as u64).s(&format!("{:?}{}", strat, factory));
                        ctx.state(f.0);
                        ctx.trace();
                    }
                }
            }
        }));
    }
    js.push(job("convenience functions", move |ctx| {
        for k in 0..4 {
            for n in [1usize, 2, 5] {
                for at in 0..ctx.tier.pick(60, 300) {
                    let b = Bomb::new(at);
                    let b2 = b.clone();
                    ctx.trans(1);
                    let f = move |x: &DVector<f64>| b2.eval(x);
                    let neg = {
                        let b3 = b.clone();
                        move |x: &DVector<f64>| -b3.eval(x)
                    };
                    let r = catch(|| match k {
                        0 => fmin(f, vec![0.5; n], 0.5),
                        1 => fmin_parallel(f, vec![0.5; n], 0.5),
                        2 => fmax(neg, vec![0.5; n], 0.5),
                        _ => fmax_parallel(neg, vec![0.5; n], 0.5),
                    });
                    let mut fp = Fp::new("fmin-panic");
                    ctx.state(fp.u(k).u(n as u64).u(at as u64).0);
                    match r {
                        Caught::Ours(p) if p == at as u64 => {
                            if k % 2 == 0 && b.count() != at + 1 {
                                ctx.viol("calls-after-panic", format!("function {} n={}: {} calls for a panic at evaluation {}", k, n, b.count(), at));
                                return;
                            }
                            ctx.count("panics_survived", 1);
                        }
                        Caught::Ours(p) => {
                            ctx.viol("payload", format!("function {} n={}: payload {} instead of {}", k, n, p, at));
                            return;
                        }
                        // some runs converge earlier
                        Caught::Done(_) if b.count() <= at => (),
                        Caught::Done(r) => {
                            ctx.viol("panic-swallowed", format!("function {} n={}: a panic at evaluation {} did not reach the caller: {:?}", k, n, at, r));
                            return;
                        }
                        Caught::Other(p) => {
                            ctx.viol("other-panic", format!("function {} n={} evaluation {}: {}", k, n, at, p));
                            return;
                        }
                    }
                    ctx.trace();
                }
            }
        }
    }));
    js
}

fn run_entry(r: cmaes::restart::Restarter, entry: Entry, b: &Bomb, factory_at: usize) -> cmaes::restart::RestartResults {
    let mut k = 0;
    let mut mk = || {
        if k == factory_at {
            panic_any(Marker(2_000_000 + k as u64));
        }
        k += 1;
        b.clone()
    };
    match entry {
        Entry::Run => r.run(mk),
        Entry::Par => r.run_parallel(mk),
        Entry::Reuse => r.run_with_reuse(mk()),
        Entry::ParReuse => r.run_parallel_with_reuse(mk()),
    }
}

// ---------------------------------------------------------------------------------------------
// P35

/// Bytes this thread holds more after `f` than before
fn growth<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let a = live_bytes();
    let r = f();
    let b = live_bytes();
    (r, b - a)
}

pub fn p35(_tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    // a) building, stepping and dropping holds nothing back
    for n in [1usize, 2, 5, 12] {
        js.push(job(format!("drop n={}", n), move |ctx| {
            for lambda in [2usize, 3, 6, 20] {
                for w in WS {
                    for kind in [Kind::Sphere, Kind::Const(1.0), Kind::Infs(3), Kind::Rosen, Kind::Lin(0, false)] {
                        for var in 0..5 {
                            let mut cfg = Cfg::new(vec![0.3; n], 0.5).lam(lambda).w(w);
                            match var {
                                1 => cfg.constraints = Some(Box::new(Bounds { lower: vec![-1.0; n], upper: vec![1.0; n] })),
                                2 => cfg.plot = Some((0, false)),
                                3 => cfg = cfg.no_tol(),
                                _ => (),
                            }
                            let gens = ctx.tier.pick(60, 400);
                            let nan = var == 4;
                            let once = |out: &mut (usize, u64)| {
                                let mut k = 0;
                                let mut es = cfg
                                    .options()
                                    .build(move |x: &DVector<f64>| {
                                        k += 1;
                                        if nan && k % 13 == 0 {
                                            return f64::NAN;
                                        }
                                        kind_value(kind, &Q { step: k / lambda, idx: k % lambda, x: x.as_slice(), mean: &[], sigma: 1.0 })
                                    })
                                    .unwrap();
                                for _ in 0..gens {
                                    if es.next().is_some() && !nan {
                                        break;
                                    }
                                }
                                let mut f = Fp::new("drop");
                                f.fs(es.mean().as_slice()).f(es.sigma());
                                *out = (es.generation(), f.0);
                            };
                            let mut o = (0, 0);
                            once(&mut o);
                            let (_, g) = growth(|| once(&mut o));
                            ctx.trans(o.0 as u64);
                            ctx.state(o.1);
                            ctx.trace();
                            if g != 0 {
                                ctx.viol("leak", format!("building, running and dropping an optimiser leaves {} bytes behind: n={} lambda={} {:?} {:?} variant {}", g, n, lambda, w, kind, var));
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
    // b) long histories: no growth beyond the recorded window
    for (n, lambda) in [(1usize, 2usize), (1, 5), (2, 2), (3, 4), (6, 3)] {
        for nan in [false, true] {
            js.push(job(format!("long history n={} lambda={} aborted={}", n, lambda, nan), move |ctx| {
                for kind in [Kind::Const(0.0), Kind::Hash(7), Kind::Index, Kind::Const(f64::INFINITY), Kind::Const(f64::NEG_INFINITY), Kind::Infs(2)] {
                    let cfg = Cfg::quiet(n, lambda);
                    let mut k = 0usize;
                    let mut es = cfg
                        .options()
                        .build(move |x: &DVector<f64>| {
                            k += 1;
                            if nan && k % (7 * lambda) < lambda {
                                return f64::NAN;
                            }
                            kind_value(kind, &Q { step: k / lambda, idx: k % lambda, x: x.as_slice(), mean: &[], sigma: 1.0 })
                        })
                        .unwrap();
                    // what one generation needs at most while it lasts is not counted: only what stays
                    let start = live_bytes();
                    let marks: Vec<usize> = ctx.tier.pick(vec![100, 1000, 10_000, 25_000, 40_000, 60_000, 90_000], vec![100, 1000, 10_000, 25_000, 40_000, 80_000, 160_000, 320_000]);
                    let mut at = 0;
                    let mut held = Vec::with_capacity(marks.len());
                    let mut full = None;
                    // generations whose values were recorded
                    let mut recorded = 0;
                    for m in &marks {
                        while at < *m {
                            let out = es.next();
                            recorded += usize::from(!out.map_or(false, |t| t.reasons.contains(&TR::InvalidFunctionValue)));
                            at += 1;
                        }
                        held.push(live_bytes() - start);
                        if full.is_none() && recorded > 20_100 {
                            full = Some(held.len() - 1);
                        }
                        let mut f = Fp::new("long");
                        ctx.state(f.u(n as u64).u(at as u64).f(es.sigma()).0);
                    }
                    ctx.trans(at as u64);
                    ctx.trace();
                    ctx.count("long_generations", at as u64);
                    // two recorded values per generation up to the window, doubled by growing buffers
                    let limit = |g: usize| 65_536 + 64 * (g.min(20_001)) as i64;
                    for (m, h) in marks.iter().zip(&held) {
                        if *h > limit(*m) {
                            ctx.viol("growth", format!("n={} lambda={} {:?} after {} generations {} bytes more than at the start are held ({:?} at {:?})", n, lambda, kind, m, h, held, marks));
                            return;
                        }
                    }
                    // beyond the window nothing is added at all
                    let full = full.unwrap_or(held.len() - 1);
                    if held[held.len() - 1] > held[full] + 4096 {
                        ctx.viol("growth", format!("n={} lambda={} {:?}: still growing after {} generations: {:?} at {:?}", n, lambda, kind, marks[full], held, marks));
                        return;
                    }
                }
            }));
        }
    }
    // c) plots: cleared storage is reused
    for gap in [0usize, 1, 7] {
        js.push(job(format!("plots gap={}", gap), move |ctx| {
            for n in [1usize, 3] {
                for every in ctx.tier.pick(vec![1usize, 5, 32], vec![1, 2, 5, 8, 32, 100]) {
                    let mut cfg = Cfg::quiet(n, 4);
                    cfg.plot = Some((gap, false));
                    let mut es = cfg.options().build(|x: &DVector<f64>| x[0]).unwrap();
                    let mut held = vec![];
                    let start = live_bytes();
                    for g in 1..=every * 60 {
                        let _ = es.next();
                        if g % every == 0 {
                            es.get_mut_plot().unwrap().clear();
                            held.push(live_bytes() - start);
                        }
                    }
                    ctx.trans((every * 60) as u64);
                    ctx.trace();
                    let mut f = Fp::new("plots");
                    ctx.state(f.u(n as u64).u(gap as u64).u(every as u64).0);
                    // the value history still grows; the plot does not
                    let limit = 4096 + (every as i64 * 2 + 16) * (5 + 3 * n as i64) * 8 + 64 * (every * 60) as i64;
                    if *held.last().unwrap() > limit {
                        ctx.viol("plot-growth", format!("n={} gap={} cleared every {} generations: {:?} bytes held (limit {})", n, gap, every, held.last(), limit));
                        return;
                    }
                }
            }
        }));
    }
    // c') clearing keeps the storage of a plot, however large it got
    for n in [1usize, 4] {
        js.push(job(format!("large plots n={}", n), move |ctx| {
            for points in ctx.tier.pick(vec![3usize, 30, 300, 1500, 5000], vec![3, 10, 30, 100, 300, 1000, 1500, 5000, 20000]) {
                let mut cfg = Cfg::quiet(n, 4);
                cfg.plot = Some((0, false));
                let mut es = cfg.options().build(|_: &DVector<f64>| 0.0).unwrap();
                let fill = |es: &mut cmaes::CMAES<_>| {
                    for _ in 0..points {
                        let _ = es.next();
                    }
                };
                fill(&mut es);
                for round in 0..3 {
                    let (a, cap) = (live_bytes(), es.get_plot().unwrap().capacity());
                    es.get_mut_plot().unwrap().clear();
                    let b = live_bytes();
                    if b != a || es.get_plot().unwrap().capacity() != cap {
                        ctx.viol("plot-storage", format!("n={} clearing a plot of {} points released {} bytes (round {})", n, points, a - b, round));
                        return;
                    }
                    fill(&mut es);
                    // the value histories keep growing, by at most a doubling of two numbers per generation
                    let grown = live_bytes() - b;
                    if grown > (points * (round + 2) * 2 * 16 + 4096) as i64 {
                        ctx.viol("plot-growth", format!("n={} refilling a cleared plot of {} points took {} bytes (round {})", n, points, grown, round));
                        return;
                    }
                }
                ctx.trans(4 * points as u64);
                ctx.trace();
                let mut f = Fp::new("large plots");
                ctx.state(f.u(n as u64).u(points as u64).0);
            }
        }));
    }
    // d) restarts
    for strat in [Strat::Local(40, None), Strat::Ipop(1), Strat::BipopDefault] {
        js.push(job(format!("restarts {:?}", strat), move |ctx| {
            for n in [1usize, 3] {
                let peak = Arc::new(Mutex::new(vec![]));
                let p2 = peak.clone();
                let go = move || {
                    let r = RestartOptions::new(n, -1.0..=1.0, strat.build().unwrap())
                        .max_generations_per_run(6)
                        .max_function_evals(4000)
                        .seed(3)
                        .build()
                        .unwrap();
                    let p3 = p2.clone();
                    let res = r.run(move || {
                        p3.lock().unwrap().push(live_bytes());
                        |x: &DVector<f64>| x.iter().map(|v| v * v).sum::<f64>()
                    });
                    (res.runs, res.function_evals)
                };
                let _ = go();
                peak.lock().unwrap().clear();
                peak.lock().unwrap().reserve(4096);
                let (r, g) = growth(&go);
                let v = peak.lock().unwrap().clone();
                ctx.trans(r.0 as u64);
                ctx.trace();
                let mut f = Fp::new("restarts");
                ctx.state(f.u(n as u64).u(r.1 as u64).s(&format!("{:?}", strat)).0);
                if g > 0 {
                    ctx.viol("leak", format!("{:?} n={}: {} bytes are left after the restarter finished", strat, n, g));
                    return;
                }
                // between runs only the best individual is kept
                if let (Some(a), Some(b)) = (v.get(1), v.last()) {
                    if b - a > 1024 {
                        ctx.viol("growth", format!("{:?} n={}: {} bytes more are held before run {} than before run 2", strat, n, b - a, v.len()));
                        return;
                    }
                }
            }
        }));
    }
    js
}

// ---------------------------------------------------------------------------------------------
// P36

pub fn p36(tier: Tier) -> Vec<Job> {
    let lite = verif_dir().join("target/lite/release/mc-lite");
    let log = verif_dir().join("target/.lite-log");
    let mut js = vec![job("build without plotting", {
        let (lite, log) = (lite.clone(), log.clone());
        move |ctx| {
            ctx.trans(1);
            if !lite.exists() {
                let s = std::fs::read_to_string(&log).unwrap_or_default();
                let e: Vec<&str> = s.lines().filter(|l| l.starts_with("error")).take(6).collect();
                ctx.viol("build", format!("the crate does not build without its default features: {}", e.join(" / ")));
            }
        }
    })];
    for g in crate::feat::GROUPS {
        let lite = lite.clone();
        js.push(job(format!("group {}", g), move |ctx| {
            if !lite.exists() {
                return;
            }
            let file = scratch_dir().join(format!("lite-{}", g.replace('=', "")));
            let o = std::process::Command::new(&lite).arg(g).arg(tier.name()).arg(&file).stdin(std::process::Stdio::null()).output().expect("lite");
            if !o.status.success() {
                ctx.viol("crash", format!("group {} fails without plotting: {}", g, String::from_utf8_lossy(&o.stderr)));
                return;
            }
            let (ours, printed) = capture(|| crate::feat::run(g, tier == Tier::Thorough));
            let text = std::fs::read_to_string(&file).expect("output of lite");
            let theirs: Vec<&str> = text.lines().collect();
            // a value may span several lines
            let joined = ours.join("\n");
            let ours: Vec<&str> = joined.lines().collect();
            for (a, b) in ours.iter().zip(&theirs) {
                let mut f = Fp::new("feature");
                ctx.state(f.s(a).0);
                ctx.trans(1);
                if a != b {
                    ctx.viol("differs", format!("with plotting: {} / without: {}", a, b));
                    return;
                }
            }
            ctx.sample(|| json!({"step": ours.last()}));
            if ours.len() != theirs.len() {
                ctx.viol("differs", format!("group {}: {} lines with plotting, {} without", g, ours.len(), theirs.len()));
                return;
            }
            let lp = String::from_utf8_lossy(&o.stdout).into_owned();
            // "Time elapsed" style lines are not printed anywhere; everything printed must agree
            // (the convenience functions print their random seed)
            if g != "wrappers" && lp != printed {
                let d = lp.lines().zip(printed.lines()).find(|(a, b)| a != b);
                ctx.viol("prints-differ", format!("group {}: printed without / with plotting: {:?}", g, d));
                return;
            }
            ctx.count("printed_lines_compared", printed.lines().count() as u64);
            ctx.trace();
        }));
    }
    js
}
