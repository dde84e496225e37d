//! P31, P32: objective adaptors and the convenience functions.

use super::parallel::pool;
use crate::rt::*;
use crate::sim::*;
use cmaes::objective_function::{ObjectiveFunction, ParallelObjectiveFunction, Scale};
use cmaes::{CMAESOptions, DVector, Mode, CMAES};
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

type F = fn(&[f64]) -> f64;

fn sph(x: &[f64]) -> f64 {
    x.iter().map(|v| (v - 0.2) * (v - 0.2)).sum()
}
fn ras(x: &[f64]) -> f64 {
    x.iter().map(|v| 10.0 + v * v - 10.0 * (2.0 * std::f64::consts::PI * v).cos()).sum()
}
fn ros(x: &[f64]) -> f64 {
    if x.len() == 1 {
        return (1.0 - x[0]).powi(2);
    }
    x.windows(2).map(|w| 100.0 * (w[1] - w[0] * w[0]).powi(2) + (1.0 - w[0]).powi(2)).sum()
}
fn flat(_: &[f64]) -> f64 {
    1.0
}
fn stair(x: &[f64]) -> f64 {
    x.iter().map(|v| v.abs().floor()).sum()
}
fn infs(x: &[f64]) -> f64 {
    if x[0] > 0.5 {
        f64::INFINITY
    } else if x[0] < -1.5 {
        f64::NEG_INFINITY
    } else {
        x.iter().sum()
    }
}
fn neg(x: &[f64]) -> f64 {
    -sph(x)
}

const FS: [(&str, F); 6] = [("sphere", sph), ("rastrigin", ras), ("rosenbrock", ros), ("flat", flat), ("stairs", stair), ("infinities", infs)];

/// the run of an optimiser as its calls see it
#[derive(Clone, Debug, PartialEq)]
struct Trace {
    calls: Vec<(Vec<u64>, u64)>,
    end: String,
}

type Log = Arc<Mutex<Vec<(Vec<f64>, f64)>>>;

fn trace(log: &Log, sorted: bool, end: String) -> Trace {
    let mut calls: Vec<(Vec<u64>, u64)> = log.lock().unwrap_or_else(|e| e.into_inner()).drain(..).map(|(x, f)| (x.iter().map(|v| v.to_bits()).collect(), f.to_bits())).collect();
    if sorted {
        calls.sort();
    }
    Trace { calls, end }
}

fn rec(log: &Log, f: F) -> impl Fn(&DVector<f64>) -> f64 + Sync + Send + Clone {
    let log = log.clone();
    move |x: &DVector<f64>| {
        let v = f(x.as_slice());
        log.lock().unwrap().push((x.as_slice().to_vec(), v));
        v
    }
}

fn state<G>(es: &CMAES<G>, out: &TD) -> String {
    format!("{:?} {:?} {} {} {:?}", Snap::of(es), out.overall_best.as_ref().map(|b| b.value.to_bits()), es.generation(), es.function_evals(), out.reasons)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Seq,
    Par,
    Steps,
    ParSteps,
}
const HOWS: [How; 4] = [How::Seq, How::Par, How::Steps, How::ParSteps];

fn seq<G: ObjectiveFunction>(o: CMAESOptions, g: G, steps: bool) -> (String, G) {
    let mut es = o.build(g).unwrap();
    let out = if steps {
        loop {
            if let Some(t) = es.next() {
                break t;
            }
        }
    } else {
        es.run()
    };
    let s = state(&es, &out);
    (s, es.into_objective_function())
}

fn par<G: ParallelObjectiveFunction>(o: CMAESOptions, g: G, steps: bool) -> (String, G) {
    let mut es = o.build(g).unwrap();
    let out = if steps {
        loop {
            if let Some(t) = es.next_parallel() {
                break t;
            }
        }
    } else {
        es.run_parallel()
    };
    let s = state(&es, &out);
    (s, es.into_objective_function())
}

struct Custom {
    log: Log,
    f: F,
    count: AtomicU64,
    id: u64,
}

impl ObjectiveFunction for Custom {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.evaluate_parallel(x)
    }
}
impl ParallelObjectiveFunction for Custom {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.count.fetch_add(1, Ordering::SeqCst);
        let v = (self.f)(x.as_slice());
        self.log.lock().unwrap().push((x.as_slice().to_vec(), v));
        v
    }
}
impl<'a> ObjectiveFunction for &'a mut Custom {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.evaluate_parallel(x)
    }
}
impl<'a> ParallelObjectiveFunction for &'a Custom {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        (**self).evaluate_parallel(x)
    }
}

thread_local! {
    static FN_LOG: std::cell::RefCell<Vec<(Vec<f64>, f64)>> = const { std::cell::RefCell::new(vec![]) };
}
static FN_WHICH: AtomicU64 = AtomicU64::new(0);
static FN_PLOG: Mutex<Vec<(Vec<f64>, f64)>> = Mutex::new(vec![]);

/// a plain function
fn plain(x: &DVector<f64>) -> f64 {
    let v = FS[FN_WHICH.load(Ordering::SeqCst) as usize].1(x.as_slice());
    FN_PLOG.lock().unwrap().push((x.as_slice().to_vec(), v));
    v
}

fn cfgs(n: usize, mode: Mode, seed: u64) -> Cfg {
    let mut c = Cfg::new((0..n).map(|i| 0.3 - i as f64 * 0.2).collect(), 0.6).mode(mode).seed(seed);
    c.max_gens = Some(60);
    c
}

pub fn p31(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    // all adaptors against the closure
    for (fi, (fname, f)) in FS.into_iter().enumerate() {
        for mode in MODES {
            for n in tier.pick(vec![1usize, 3], vec![1, 2, 3, 6]) {
                jobs.push(job(format!("adaptors/{}/{}/n{}", fname, mname(mode), n), move |ctx| {
                    for seed in 0..tier.pick(4u64, 20) {
                        let o = || cfgs(n, mode, seed).options();
                        for how in HOWS {
                            let steps = matches!(how, How::Steps | How::ParSteps);
                            let p = matches!(how, How::Par | How::ParSteps);
                            let log: Log = Default::default();
                            // reference: recorded closure, sequential
                            let base = {
                                let g = rec(&log, f);
                                let (s, _) = seq(o(), g, false);
                                trace(&log, p, s)
                            };
                            if base.calls.is_empty() {
                                ctx.viol("calls", "no evaluations");
                            }
                            let cmp = |ctx: &mut Ctx, name: &str, s: String| {
                                let t = trace(&log, p, s);
                                ctx.trans(1);
                                ctx.trace();
                                let mut fp = Fp::new("adaptor");
                                fp.s(name).s(fname).u(seed).u(n as u64);
                                ctx.state(fp.0);
                                if t.calls != base.calls {
                                    let k = t.calls.iter().zip(&base.calls).position(|(a, b)| a != b).unwrap_or(t.calls.len().min(base.calls.len()));
                                    ctx.viol("adaptor-calls", format!("{} ({:?}, {}, n={}, seed {}): evaluation {} of {} differs ({} with a closure)", name, how, fname, n, seed, k, t.calls.len(), base.calls.len()));
                                } else if t.end != base.end {
                                    ctx.viol("adaptor-run", format!("{} ({:?}, {}, n={}, seed {}): ends with {} instead of {}", name, how, fname, n, seed, t.end, base.end));
                                }
                            };
                            FN_WHICH.store(fi as u64, Ordering::SeqCst);
                            if !p {
                                let (s, _) = seq(o(), rec(&log, f), steps);
                                cmp(ctx, "closure", s);
                                let mut g = rec(&log, f);
                                let (s, _) = seq(o(), &mut g, steps);
                                cmp(ctx, "mutable reference to a closure", s);
                                let mut count = 0usize;
                                let g = rec(&log, f);
                                let (s, _) = seq(
                                    o(),
                                    |x: &DVector<f64>| {
                                        count += 1;
                                        g(x)
                                    },
                                    steps,
                                );
                                let calls = log.lock().unwrap().len();
                                cmp(ctx, "closure with state", s);
                                if count != calls {
                                    ctx.viol("state", format!("a closure's counter is {} after {} calls", count, calls));
                                }
                                let b: Box<dyn ObjectiveFunction> = Box::new(rec(&log, f));
                                let (s, mut b) = seq(o(), b, steps);
                                cmp(ctx, "box", s);
                                // the box given back still works
                                let x = DVector::from_element(n, 0.25);
                                let v = b.evaluate(&x);
                                let l = log.lock().unwrap().drain(..).count();
                                if v.to_bits() != f(x.as_slice()).to_bits() || l != 1 {
                                    ctx.viol("given-back", "the box given back evaluates another function");
                                }
                                let (s, c) = seq(o(), Custom { log: log.clone(), f, count: AtomicU64::new(0), id: 42 + seed }, steps);
                                let calls = log.lock().unwrap().len();
                                cmp(ctx, "custom type", s);
                                if c.count.load(Ordering::SeqCst) as usize != calls || c.id != 42 + seed {
                                    ctx.viol("given-back", format!("the custom objective given back counts {} of {} calls", c.count.load(Ordering::SeqCst), calls));
                                }
                                let mut c = Custom { log: log.clone(), f, count: AtomicU64::new(0), id: 1 };
                                let (s, _) = seq(o(), &mut c, steps);
                                cmp(ctx, "mutable reference to a custom type", s);
                                let b: Box<dyn ObjectiveFunction> = Box::new(Custom { log: log.clone(), f, count: AtomicU64::new(0), id: 1 });
                                let (s, _) = seq(o(), b, steps);
                                cmp(ctx, "boxed custom type", s);
                                let (s, _) = seq(o(), plain as fn(&DVector<f64>) -> f64, steps);
                                log.lock().unwrap().append(&mut FN_PLOG.lock().unwrap());
                                cmp(ctx, "function", s);
                                let sc = Scale::new(rec(&log, f), vec![1.0; n]);
                                let (s, _) = seq(o(), sc, steps);
                                cmp(ctx, "unit scale", s);
                                let mut sc = Scale::new(rec(&log, f), vec![1.0; n]);
                                let (s, _) = seq(o(), &mut sc, steps);
                                cmp(ctx, "mutable reference to a unit scale", s);
                                let b: Box<dyn ObjectiveFunction> = Box::new(Scale::new(rec(&log, f), vec![1.0; n]));
                                let (s, _) = seq(o(), Scale::new(b, vec![1.0; n]), steps);
                                cmp(ctx, "scale of a boxed scale", s);
                            } else {
                                pool(1 + (seed as usize % 3)).install(|| {
                                    let (s, _) = par(o(), rec(&log, f), steps);
                                    cmp(ctx, "closure", s);
                                    let g = rec(&log, f);
                                    let (s, _) = par(o(), &g, steps);
                                    cmp(ctx, "reference to a closure", s);
                                    let b: Box<dyn ParallelObjectiveFunction> = Box::new(rec(&log, f));
                                    let (s, b) = par(o(), b, steps);
                                    cmp(ctx, "box", s);
                                    let x = DVector::from_element(n, 0.25);
                                    let v = b.evaluate_parallel(&x);
                                    let l = log.lock().unwrap().drain(..).count();
                                    if v.to_bits() != f(x.as_slice()).to_bits() || l != 1 {
                                        ctx.viol("given-back", "the box given back evaluates another function");
                                    }
                                    let (s, c) = par(o(), Custom { log: log.clone(), f, count: AtomicU64::new(0), id: 7 }, steps);
                                    let calls = log.lock().unwrap().len();
                                    cmp(ctx, "custom type", s);
                                    if c.count.load(Ordering::SeqCst) as usize != calls || c.id != 7 {
                                        ctx.viol("given-back", "the custom objective given back is another one");
                                    }
                                    let c = Custom { log: log.clone(), f, count: AtomicU64::new(0), id: 1 };
                                    let (s, _) = par(o(), &c, steps);
                                    cmp(ctx, "reference to a custom type", s);
                                    let (s, _) = par(o(), plain as fn(&DVector<f64>) -> f64, steps);
                                    log.lock().unwrap().append(&mut FN_PLOG.lock().unwrap());
                                    cmp(ctx, "function", s);
                                    let (s, _) = par(o(), Scale::new(rec(&log, f), vec![1.0; n]), steps);
                                    cmp(ctx, "unit scale", s);
                                    let sc = Scale::new(rec(&log, f), vec![1.0; n]);
                                    let (s, _) = par(o(), &sc, steps);
                                    cmp(ctx, "reference to a unit scale", s);
                                    let b: Box<dyn ParallelObjectiveFunction> = Box::new(Scale::new(rec(&log, f), vec![1.0; n]));
                                    let (s, _) = par(o(), b, steps);
                                    cmp(ctx, "boxed unit scale", s);
                                });
                            }
                        }
                        ctx.sample(|| json!({"function": fname, "n": n, "mode": mname(mode), "seed": seed}));
                        if ctx.full() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // all scale vectors over an alphabet: single evaluations
    let sc = [-2.0, -0.0, 0.0, 5e-324, 1e-3, 0.1, 1.0, 3.0, 1e200, f64::INFINITY];
    let xs = [-1e200, -1.5, 0.0, 1e-300, 0.1, 7.0, f64::INFINITY];
    for n in [1usize, 2, 3] {
        for (si, s0) in sc.into_iter().enumerate() {
            jobs.push(job(format!("scale/n{}/{}", n, si), move |ctx| {
                for rest in sequences(sc.len(), n - 1) {
                    let mut s = vec![s0];
                    s.extend(rest.iter().map(|i| sc[*i]));
                    for xi in sequences(xs.len(), n) {
                        let x: Vec<f64> = xi.iter().map(|i| xs[*i]).collect();
                        let want: Vec<f64> = x.iter().zip(&s).map(|(a, b)| a * b).collect();
                        let dx = DVector::from_vec(x.clone());
                        let log: Log = Default::default();
                        let g = rec(&log, |x| x.iter().sum());
                        let mut sc = Scale::new(g, s.clone());
                        let same = |a: &[f64]| a.len() == want.len() && a.iter().zip(&want).all(|(p, q)| p.to_bits() == q.to_bits() || (p.is_nan() && q.is_nan()));
                        let bad = |ctx: &mut Ctx, how: &str, got: &[f64]| ctx.viol("scale", format!("{} by {:?}: {:?} becomes {:?}, expected {:?}", how, s, x, got, want));
                        let d = sc.scale(&dx);
                        if !same(d.as_slice()) {
                            bad(ctx, "scale()", d.as_slice());
                        }
                        if !bits(sc.scales().as_slice(), &s) {
                            ctx.viol("scales", format!("reports the scales {:?}, given {:?}", sc.scales(), s));
                        }
                        let sum: f64 = want.iter().sum();
                        let vs = [sc.evaluate(&dx), ObjectiveFunction::evaluate(&mut &mut sc, &dx), sc.evaluate_parallel(&dx), ParallelObjectiveFunction::evaluate_parallel(&&sc, &dx)];
                        for v in vs {
                            if !(v.to_bits() == sum.to_bits() || (v.is_nan() && sum.is_nan())) {
                                ctx.viol("scale-value", format!("{:?} scaled by {:?} gives {:e}, expected {:e}", x, s, v, sum));
                            }
                        }
                        for (p, _) in log.lock().unwrap().drain(..) {
                            if !same(&p) {
                                bad(ctx, "evaluation", &p);
                            }
                        }
                        let g = sc.clone().into_wrapped_function();
                        g(&dx);
                        if !bits(&log.lock().unwrap()[0].0, &x) {
                            ctx.viol("scale-inner", "the wrapped function given back is still scaled");
                        }
                        ctx.trans(4);
                        let mut f = Fp::new("scale");
                        f.fs(&s).fs(&x);
                        ctx.state(f.0);
                        if ctx.full() {
                            return;
                        }
                    }
                }
                ctx.trace();
            }));
        }
    }
    // optimising through a scale is optimising the hand-scaled function
    for (fname, f) in FS {
        jobs.push(job(format!("scaled-runs/{}", fname), move |ctx| {
            for n in [1usize, 2, 3] {
                for s in sequences(4, n) {
                    let s: Vec<f64> = s.iter().map(|i| [0.2, 1.0, -3.0, 1e3][*i]).collect();
                    for mode in MODES {
                        for how in [How::Seq, How::Par] {
                            for seed in 0..tier.pick(1u64, 5) {
                                let la: Log = Default::default();
                                let lb: Log = Default::default();
                                let o = || cfgs(n, mode, seed).options();
                                let s2 = s.clone();
                                let inner = rec(&lb, f);
                                let hand = move |x: &DVector<f64>| inner(&DVector::from_iterator(x.len(), x.iter().zip(&s2).map(|(a, b)| a * b)));
                                let (a, b) = if how == How::Seq {
                                    let a = seq(o(), Scale::new(rec(&la, f), s.clone()), false).0;
                                    (trace(&la, false, a), { let b = seq(o(), hand, false).0; trace(&lb, false, b) })
                                } else {
                                    pool(3).install(|| {
                                        let a = par(o(), Scale::new(rec(&la, f), s.clone()), false).0;
                                        let a = trace(&la, true, a);
                                        let b = par(o(), hand, false).0;
                                        (a, trace(&lb, true, b))
                                    })
                                };
                                if a != b {
                                    ctx.viol("scaled-run", format!("{} scaled by {:?} ({:?}, {}): {} vs by hand {}", fname, s, how, mname(mode), a.end, b.end));
                                }
                                ctx.trans(a.calls.len() as u64);
                                ctx.trace();
                                let mut fp = Fp::new("scaledrun");
                                fp.fs(&s).s(fname).u(seed);
                                ctx.state(fp.0);
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }));
    }
    // every sequence of points through every adaptor, to an objective that counts: each call arrives, also for a point seen before
    for n in [1usize, 2] {
        jobs.push(job(format!("counting/n{}", n), move |ctx| {
            let xs = [0.0, 1.0, -2.5];
            let pts: Vec<Vec<f64>> = sequences(xs.len(), n).into_iter().map(|i| i.iter().map(|k| xs[*k]).collect()).collect();
            let depth = if n == 1 { tier.pick(5, 7) } else { tier.pick(3, 4) };
            for scales in sequences(3, n) {
                let scales: Vec<f64> = scales.iter().map(|i| [0.0, 1.0, -3.0][*i]).collect();
                for seq in sequences(pts.len(), depth) {
                    for how in 0..8 {
                        let log: Log = Default::default();
                        let l2 = log.clone();
                        let count = AtomicU64::new(0);
                        let g = move |x: &DVector<f64>| {
                            let v = count.fetch_add(1, Ordering::SeqCst) as f64;
                            l2.lock().unwrap().push((x.as_slice().to_vec(), v));
                            v
                        };
                        let scaled = !matches!(how, 4 | 5);
                        let mut e: Box<dyn FnMut(&DVector<f64>) -> f64> = match how {
                            0 => {
                                let mut s = Scale::new(g, scales.clone());
                                Box::new(move |x| s.evaluate(x))
                            }
                            1 => {
                                let s = Scale::new(g, scales.clone());
                                Box::new(move |x| s.evaluate_parallel(x))
                            }
                            2 => {
                                let mut s = Scale::new(g, scales.clone());
                                Box::new(move |x| ObjectiveFunction::evaluate(&mut &mut s, x))
                            }
                            3 => {
                                let s = Scale::new(g, scales.clone());
                                Box::new(move |x| ParallelObjectiveFunction::evaluate_parallel(&&s, x))
                            }
                            4 => {
                                let mut b: Box<dyn ObjectiveFunction> = Box::new(g);
                                Box::new(move |x| b.evaluate(x))
                            }
                            5 => {
                                let b: Box<dyn ParallelObjectiveFunction> = Box::new(g);
                                Box::new(move |x| b.evaluate_parallel(x))
                            }
                            6 => {
                                let b: Box<dyn ObjectiveFunction> = Box::new(g);
                                let mut s = Scale::new(b, scales.clone());
                                Box::new(move |x| s.evaluate(x))
                            }
                            _ => {
                                let mut b: Box<dyn ObjectiveFunction> = Box::new(Scale::new(g, scales.clone()));
                                Box::new(move |x| b.evaluate(x))
                            }
                        };
                        for (k, i) in seq.iter().enumerate() {
                            let v = e(&DVector::from_vec(pts[*i].clone()));
                            let want: Vec<f64> = pts[*i].iter().zip(&scales).map(|(a, b)| if scaled { a * b } else { *a }).collect();
                            let calls = log.lock().unwrap();
                            if v != k as f64 || calls.len() != k + 1 || !bits(&calls[k].0, &want) {
                                let got = calls.last().cloned();
                                let n = calls.len();
                                drop(calls);
                                ctx.viol("counting", format!("adaptor {} with scales {:?}: call {} of the points {:?} gives {} after {} calls of the objective, the last being {:?}", how, scales, k, seq.iter().map(|i| &pts[*i]).collect::<Vec<_>>(), v, n, got));
                                break;
                            }
                        }
                        ctx.trans(seq.len() as u64);
                        if ctx.full() {
                            return;
                        }
                    }
                    let mut fp = Fp::new("counting");
                    fp.fs(&scales);
                    for i in &seq {
                        fp.u(*i as u64);
                    }
                    ctx.state(fp.0);
                }
            }
            ctx.trace();
        }));
    }
    // runs of an objective that answers by what it was asked before, through every adaptor, also where points coincide
    for n in [1usize, 2, 3] {
        jobs.push(job(format!("stateful-runs/n{}", n), move |ctx| {
            for mask in 0..1usize << n {
                // (a scale of zero makes points coincide)
                let scales: Vec<f64> = (0..n).map(|i| if mask >> i & 1 == 1 { 0.0 } else { 1.0 }).collect();
                for seed in 0..tier.pick(6u64, 40) {
                    for mode in MODES {
                        let o = || cfgs(n, mode, seed).options();
                        let log: Log = Default::default();
                        let mk = || {
                            let l = log.clone();
                            let mut c = 0u64;
                            move |x: &DVector<f64>| {
                                c += 1;
                                let v = hash01(seed, c) + 0.1 * x.norm_squared();
                                l.lock().unwrap().push((x.as_slice().to_vec(), v));
                                v
                            }
                        };
                        let base = {
                            let mut g = mk();
                            let sc = scales.clone();
                            let (s, _) = seq(o(), move |x: &DVector<f64>| g(&DVector::from_iterator(x.len(), x.iter().zip(&sc).map(|(a, b)| a * b))), false);
                            trace(&log, false, s)
                        };
                        for how in 0..4 {
                            let s = match how {
                                0 => seq(o(), Scale::new(mk(), scales.clone()), false).0,
                                1 => seq(o(), &mut Scale::new(mk(), scales.clone()), true).0,
                                2 => {
                                    let b: Box<dyn ObjectiveFunction> = Box::new(mk());
                                    seq(o(), Scale::new(b, scales.clone()), false).0
                                }
                                _ => {
                                    let b: Box<dyn ObjectiveFunction> = Box::new(Scale::new(mk(), scales.clone()));
                                    seq(o(), b, true).0
                                }
                            };
                            let t = trace(&log, false, s);
                            if t != base {
                                ctx.viol("stateful-run", format!("adaptor {} with scales {:?} ({}, seed {}): {} calls ending with {}, by hand {} calls ending with {}", how, scales, mname(mode), seed, t.calls.len(), t.end, base.calls.len(), base.end));
                            }
                            ctx.trans(t.calls.len() as u64);
                            ctx.trace();
                        }
                        let mut fp = Fp::new("stateful");
                        fp.fs(&scales).u(seed).s(mname(mode));
                        ctx.state(fp.0);
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }
        }));
    }
    // state kept by an objective across optimisers, at every step
    jobs.push(job("give-back", move |ctx| {
        for steps in 0..tier.pick(12usize, 40) {
            for nan in [None, Some(7u64), Some(19)] {
                let log: Log = Default::default();
                let c = Custom { log: log.clone(), f: sph, count: AtomicU64::new(0), id: 5 };
                let mut es = CMAESOptions::new(vec![0.1; 2], 0.4).seed(3).build(c).unwrap();
                for _ in 0..steps {
                    let _ = es.next();
                }
                let c = es.into_objective_function();
                let k = log.lock().unwrap().len();
                if c.count.load(Ordering::SeqCst) as usize != k || k != 6 * steps {
                    ctx.viol("given-back", format!("after {} generations the objective counts {} calls of {}", steps, c.count.load(Ordering::SeqCst), k));
                }
                // reuse
                let mut es = CMAESOptions::new(vec![0.1; 2], 0.4).seed(3).build(c).unwrap();
                let _ = es.next_parallel();
                let c = es.into_objective_function();
                if c.count.load(Ordering::SeqCst) as usize != k + 6 {
                    ctx.viol("given-back", "the objective loses its state when used again");
                }
                let _ = nan;
                ctx.trans(1);
                ctx.state(steps as u64);
            }
        }
        ctx.trace();
    }));
    let _ = FN_LOG;
    jobs
}

// ---------------------------------------------------------------------------------------------
// P32

fn seed_of(out: &str) -> Option<u64> {
    let i = out.find("seed=")? + 5;
    let e = out[i..].find(|c: char| !c.is_ascii_digit()).map_or(out.len(), |k| i + k);
    out[i..e].parse().ok()
}

pub fn p32(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let fs: [(&str, F); 7] = [("sphere", sph), ("rastrigin", ras), ("rosenbrock", ros), ("flat", flat), ("stairs", stair), ("infinities", infs), ("negative sphere", neg)];
    for (fname, f) in fs {
        for max in [false, true] {
            for parallel in [false, true] {
                jobs.push(job(format!("{}/{}/{}", if max { "fmax" } else { "fmin" }, if parallel { "par" } else { "seq" }, fname), move |ctx| {
                    // unbounded problems end only by overflowing: cap through the objective instead
                    let diverges = (max && !matches!(fname, "negative sphere" | "flat" | "infinities")) || (!max && fname == "negative sphere");
                    let g: F = match (diverges, max) {
                        (false, _) => f,
                        (true, _) => match fname {
                            "sphere" => |x| sph(x).min(50.0),
                            "rastrigin" => |x| ras(x).min(200.0),
                            "rosenbrock" => |x| ros(x).min(1e5),
                            "stairs" => |x| stair(x).min(9.0),
                            _ => |x| neg(x).max(-50.0),
                        },
                    };
                    for n in tier.pick(vec![1usize, 2, 4], vec![1, 2, 3, 4, 6, 9]) {
                        for mean in [vec![0.0; n], vec![-3.0; n], (0..n).map(|i| i as f64 * 0.5 + 100.0).collect::<Vec<_>>()] {
                            for sigma in [1e-3, 0.5, 20.0] {
                                let log: Log = Default::default();
                                let (r, out) = capture(|| {
                                    guarded(|| match (max, parallel) {
                                        (false, false) => cmaes::fmin(rec(&log, g), mean.clone(), sigma),
                                        (true, false) => cmaes::fmax(rec(&log, g), mean.clone(), sigma),
                                        (false, true) => cmaes::fmin_parallel(rec(&log, g), mean.clone(), sigma),
                                        (true, true) => cmaes::fmax_parallel(rec(&log, g), mean.clone(), sigma),
                                    })
                                });
                                let what = format!("{} of {} from {:?} step size {}", if max { "fmax" } else { "fmin" }, fname, mean, sigma);
                                let r = match r {
                                    Ok(r) => r,
                                    Err(p) => {
                                        ctx.viol("panic", format!("{}: {}", what, p));
                                        continue;
                                    }
                                };
                                let calls = std::mem::take(&mut *log.lock().unwrap());
                                ctx.trans(calls.len() as u64);
                                ctx.trace();
                                let mut fp = Fp::new("fmin");
                                fp.s(&what);
                                ctx.state(fp.0);
                                let best = calls.iter().map(|c| c.1).fold(if max { f64::NEG_INFINITY } else { f64::INFINITY }, |a, b| if max { a.max(b) } else { a.min(b) });
                                if r.value != best {
                                    ctx.viol("best", format!("{}: returns {:e}, the best of {} evaluations is {:e}", what, r.value, calls.len(), best));
                                } else if !calls.iter().any(|c| c.1 == r.value && bits(&c.0, r.point.as_slice())) {
                                    ctx.viol("point", format!("{}: the point returned was not evaluated to {:e}", what, r.value));
                                }
                                // the same run from the default options with the printed seed
                                match seed_of(&out) {
                                    None => ctx.viol("printing", format!("{}: no seed printed: {:.200}", what, out)),
                                    Some(s) => {
                                        let o = CMAESOptions::new(mean.clone(), sigma).mode(if max { Mode::Maximize } else { Mode::Minimize }).seed(s);
                                        let (t, _) = if parallel { par(o, rec(&log, g), false) } else { seq(o, rec(&log, g), false) };
                                        let _ = t;
                                        let mut a: Vec<_> = calls.iter().map(|c| (c.0.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), c.1.to_bits())).collect();
                                        let mut b: Vec<_> = log.lock().unwrap().drain(..).map(|c| (c.0.iter().map(|v| v.to_bits()).collect::<Vec<_>>(), c.1.to_bits())).collect();
                                        if parallel {
                                            a.sort();
                                            b.sort();
                                        }
                                        if a != b {
                                            ctx.viol("defaults", format!("{}: {} evaluations differ from the {} of a default run with the printed seed", what, a.len(), b.len()));
                                        }
                                    }
                                }
                                // first points: default population around the start
                                let lam = 4 + (3.0 * (n as f64).ln()).floor() as usize;
                                for c in calls.iter().take(lam) {
                                    if !parallel && c.0.iter().zip(&mean).any(|(x, m)| (x - m).abs() > 9.0 * sigma) {
                                        ctx.viol("start", format!("{}: the first generation contains {:?}", what, c.0));
                                    }
                                }
                                if calls.len() % lam != 0 {
                                    ctx.viol("population", format!("{}: {} evaluations are not whole generations of {}", what, calls.len(), lam));
                                }
                                ctx.sample(|| json!({"call": what, "evaluations": calls.len(), "best": format!("{:e}", r.value)}));
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }));
            }
        }
    }
    // every answer word of the first generation, then flat
    for max in [false, true] {
        jobs.push(job(format!("words/{}", if max { "fmax" } else { "fmin" }), move |ctx| {
            let alpha = [f64::NEG_INFINITY, -1.0, 2.0, f64::INFINITY];
            for w in sequences(alpha.len(), 4) {
                for gen in [0usize, 3] {
                    let log: Log = Default::default();
                    let l2 = log.clone();
                    let w2 = w.clone();
                    let mut c = 0usize;
                    let f = move |x: &DVector<f64>| {
                        let v = if c / 4 == gen { alpha[w2[c % 4]] } else { 0.5 };
                        c += 1;
                        l2.lock().unwrap().push((x.as_slice().to_vec(), v));
                        v
                    };
                    let (r, _) = capture(|| guarded(|| if max { cmaes::fmax(f, vec![0.0], 1.0) } else { cmaes::fmin(f, vec![0.0], 1.0) }));
                    let calls = log.lock().unwrap();
                    let best = calls.iter().map(|c| c.1).fold(if max { f64::NEG_INFINITY } else { f64::INFINITY }, |a, b| if max { a.max(b) } else { a.min(b) });
                    match r {
                        Err(p) => ctx.viol("panic", p),
                        Ok(r) => {
                            if r.value != best || !calls.iter().any(|c| c.1 == r.value && bits(&c.0, r.point.as_slice())) {
                                ctx.viol("best", format!("{} returns {:e}, best is {:e} (word {:?} in generation {})", if max { "fmax" } else { "fmin" }, r.value, best, w, gen + 1));
                            }
                        }
                    }
                    ctx.trans(1);
                    ctx.trace();
                    let mut fp = Fp::new("fword");
                    fp.u(max as u64).u(gen as u64);
                    for i in &w {
                        fp.u(*i as u64);
                    }
                    ctx.state(fp.0);
                }
            }
        }));
    }
    jobs
}
