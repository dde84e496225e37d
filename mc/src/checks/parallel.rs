//! P19 parallel evaluation under every completion order, P20 parallel updates.

use crate::checks::core::{cfg_fp, fp_step, words};
use crate::checks::equiv::rset;
use crate::rt::*;
use crate::sim::*;
use cmaes::objective_function::{ObjectiveFunction, ParallelObjectiveFunction};
use cmaes::{Bounds, Constraints, DVector, CMAES};
use serde_json::json;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// Moves a value into another thread although its type does not say that is fine (the optimiser holds a boxed trait object)
struct Move<T>(T);
unsafe impl<T> Send for Move<T> {}
impl<T> Move<T> {
    fn get(&mut self) -> &mut T {
        &mut self.0
    }
}

#[derive(Default)]
struct GateState {
    waiting: Vec<(usize, usize)>, // (arrival, sample index)
    release: Option<usize>,
    open: bool,
    done: usize,
    arrivals: usize,
    max_overlap: usize,
    order: Vec<usize>,
}

/// Holds concurrent calls until the controller lets them return one after another
#[derive(Default)]
pub struct Gate {
    m: Mutex<GateState>,
    cv: Condvar,
}

impl Gate {
    fn reset(&self, open: bool) {
        let mut g = self.m.lock().unwrap();
        *g = GateState { open, ..Default::default() };
    }
    fn pass(&self, idx: usize) {
        let mut g = self.m.lock().unwrap();
        if g.open {
            return;
        }
        let id = g.arrivals;
        g.arrivals += 1;
        g.waiting.push((id, idx));
        g.max_overlap = g.max_overlap.max(g.waiting.len());
        self.cv.notify_all();
        while !g.open && g.release != Some(id) {
            g = self.cv.wait(g).unwrap();
        }
        if g.release == Some(id) {
            g.release = None;
        }
        g.waiting.retain(|w| w.0 != id);
        g.done += 1;
        g.order.push(idx);
        self.cv.notify_all();
    }
}

/// Sets `open` when dropped, so that nobody is left waiting after a panic
struct OpenOnDrop<'a>(&'a Gate);
impl Drop for OpenOnDrop<'_> {
    fn drop(&mut self) {
        if let Ok(mut g) = self.0.m.lock() {
            g.open = true;
        }
        self.0.cv.notify_all();
    }
}

struct GateResult {
    order: Vec<usize>,
    max_overlap: usize,
    forced: usize,
}

/// Runs `f` in another thread while releasing up to `total` gated calls in the order given by `choices` (digit k selects among
/// the waiting calls sorted by sample index). `width`: how many calls can wait at the same time.
fn controlled<T: Send>(gate: &Gate, total: usize, width: usize, choices: &[usize], patience: Duration, f: impl FnOnce() -> T + Send) -> (Result<T, String>, GateResult) {
    gate.reset(false);
    let mut forced = 0;
    let r = std::thread::scope(|s| {
        let _open = OpenOnDrop(gate);
        let h = s.spawn(f);
        let mut k = 0;
        'outer: while k < total {
            let want = width.min(total - k);
            let mut g = gate.m.lock().unwrap();
            let mut since = Instant::now();
            let mut seen = g.waiting.len();
            loop {
                if h.is_finished() {
                    break 'outer;
                }
                if g.waiting.len() >= want {
                    break;
                }
                if g.waiting.len() != seen {
                    seen = g.waiting.len();
                    since = Instant::now();
                }
                if !g.waiting.is_empty() && since.elapsed() > patience {
                    forced += 1;
                    break;
                }
                g = gate.cv.wait_timeout(g, Duration::from_micros(300)).unwrap().0;
            }
            let mut w = g.waiting.clone();
            w.sort_by_key(|x| (x.1, x.0));
            let id = w[choices.get(k).cloned().unwrap_or(0) % w.len()].0;
            g.release = Some(id);
            gate.cv.notify_all();
            while g.done < k + 1 {
                g = gate.cv.wait(g).unwrap();
            }
            drop(g);
            // let the released call's result be stored
            let t = Instant::now();
            while t.elapsed() < Duration::from_micros(15) {
                std::hint::spin_loop();
            }
            k += 1;
        }
        drop(_open);
        h.join().map_err(|_| last_panic())
    });
    let g = gate.m.lock().unwrap();
    (r, GateResult { order: g.order.clone(), max_overlap: g.max_overlap, forced })
}

fn key(x: &[f64]) -> Vec<u64> {
    x.iter().map(|v| v.to_bits()).collect()
}

/// Objective with values by point
#[derive(Clone)]
struct GObj {
    gate: Arc<Gate>,
    table: Arc<Mutex<HashMap<Vec<u64>, (usize, f64)>>>,
    calls: Arc<Mutex<Vec<Option<usize>>>>,
}

impl GObj {
    fn new() -> GObj {
        GObj { gate: Arc::new(Gate::default()), table: Default::default(), calls: Default::default() }
    }
}

impl ParallelObjectiveFunction for GObj {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        let e = self.table.lock().unwrap().get(&key(x.as_slice())).cloned();
        self.calls.lock().unwrap().push(e.map(|e| e.0));
        self.gate.pass(e.map_or(usize::MAX, |e| e.0));
        e.map_or(0.0, |e| e.1)
    }
}

impl ObjectiveFunction for GObj {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.evaluate_parallel(x)
    }
}

/// All release schedules: mixed radix digits
fn schedules(total: usize, width: usize) -> Vec<Vec<usize>> {
    let mut r: Vec<Vec<usize>> = vec![vec![]];
    for k in 0..total {
        let b = width.min(total - k);
        let mut n = vec![];
        for p in &r {
            for d in 0..b {
                let mut q = p.clone();
                q.push(d);
                n.push(q);
            }
        }
        r = n;
    }
    r
}

pub fn pool(t: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(t).build().expect("thread pool")
}

static LONELY: AtomicBool = AtomicBool::new(false);

struct Par {
    overlap: usize,
    lonely: usize,
}

/// One history of answer words; the generations are released as `choices` says
fn sched_walk(ctx: &mut Ctx, cfg: &Cfg, ws: &[Vec<f64>], choices: &[usize], pl: &rayon::ThreadPool, threads: usize, par: &mut Par, what: &dyn Fn() -> String) {
    let lambda = cfg.lambda();
    let id = cfg_fp(cfg);
    // the reference run is sequential; NaN answers come last
    let w2: Vec<Vec<f64>> = ws.to_vec();
    let mut reference = Run::new(cfg, Box::new(move |q| {
        let f = w2[q.step % w2.len()][q.idx];
        if f.is_nan() {
            0.0
        } else {
            f
        }
    }));
    let obj = GObj::new();
    let mut es: Move<CMAES<GObj>> = Move(cfg.options().build(obj.clone()).expect("valid configuration"));
    let mut before = Snap::of(&es.0);
    for (g, w) in ws.iter().enumerate() {
        let st = reference.next();
        {
            let mut t = obj.table.lock().unwrap();
            t.clear();
            for (i, c) in st.calls.iter().enumerate() {
                t.insert(key(&c.x), (i, w[i]));
            }
            obj.calls.lock().unwrap().clear();
        }
        let patience = if par.overlap <= 1 && !LONELY.load(Ordering::Relaxed) { Duration::from_secs(2) } else { Duration::from_millis(20) };
        let (out, gr) = controlled(&obj.gate, lambda, threads, choices, patience, || {
            let es = &mut es;
            pl.install(|| es.get().next_parallel())
        });
        let out = match out {
            Ok(o) => o,
            Err(m) => {
                ctx.viol("panic", format!("{} generation {} completion order {:?}: panic {}", what(), g, gr.order, m));
                return;
            }
        };
        par.overlap = par.overlap.max(gr.max_overlap);
        if gr.forced > 0 {
            ctx.count("releases_before_all_arrived", gr.forced as u64);
        }
        if threads >= 2 && gr.max_overlap < 2 && !ws[g].iter().any(|f| f.is_nan()) {
            par.lonely += 1;
            if par.lonely >= 3 && par.overlap < 2 {
                // nothing overlaps at all: the other jobs need not wait as long to see it
                LONELY.store(true, Ordering::Relaxed);
                ctx.viol("no-overlap", format!("{}: evaluations of a generation never overlap although {} threads are free", what(), threads));
                return;
            }
        }
        let after = Snap::of(&es.0);
        let calls = obj.calls.lock().unwrap().clone();
        let mut f = Fp(id);
        for i in &gr.order {
            f.u(*i as u64);
        }
        after.fp(&mut f);
        ctx.state(f.0);
        ctx.trans(1);
        let ctxt = || format!("{} generation {} answers {:?} completion order {:?}", what(), g, w, gr.order);
        if calls.iter().any(|c| c.is_none()) {
            ctx.viol("parallel-points", format!("{}: a point is evaluated that the sequential run does not evaluate", ctxt()));
            return;
        }
        let o = out;
        if w.iter().any(|f| f.is_nan()) {
            if !after.same_dist(&before) || !after.same_bests(&before) || rset(&o) != ["InvalidFunctionValue"] || after.evals != before.evals + calls.len() {
                ctx.viol("parallel-invalid", format!("{}: an invalid value must end the generation without any change: {:?} {:?} {} calls", ctxt(), after, reasons(&o), calls.len()));
            }
            return;
        }
        let mut idx: Vec<usize> = calls.iter().map(|c| c.unwrap()).collect();
        idx.sort();
        if idx != (0..lambda).collect::<Vec<_>>() {
            ctx.viol("parallel-calls", format!("{}: evaluated samples {:?}", ctxt(), idx));
            return;
        }
        if !after.same(&st.after) {
            ctx.viol("parallel-state", format!("{}: {:?} / sequential {:?}", ctxt(), after, st.after));
            return;
        }
        if rset(&o) != rset(&st.out) {
            ctx.viol("parallel-reasons", format!("{}: {:?} / sequential {:?}", ctxt(), reasons(&o), reasons(&st.out)));
            return;
        }
        if let (Some(a), Some(b)) = (&o, &st.out) {
            let eq = |x: &Option<cmaes::Individual>, y: &Option<cmaes::Individual>| match (x, y) {
                (Some(x), Some(y)) => bits(x.point.as_slice(), y.point.as_slice()) && x.value.to_bits() == y.value.to_bits(),
                (None, None) => true,
                _ => false,
            };
            if !eq(&a.current_best, &b.current_best) || !eq(&a.overall_best, &b.overall_best) || !bits(a.final_mean.as_slice(), b.final_mean.as_slice()) {
                ctx.viol("parallel-result", format!("{}: {:?} / sequential {:?}", ctxt(), a, b));
                return;
            }
        }
        before = after;
    }
    ctx.trace();
}

fn interesting(lambda: usize) -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = vec![];
    v.push((0..lambda).map(|i| i as f64).collect());
    v.push((0..lambda).map(|i| -(i as f64)).collect());
    v.push(vec![1.0; lambda]);
    v.push((0..lambda).map(|i| (i % 2) as f64).collect());
    v.push((0..lambda).map(|i| if i % 2 == 0 { -0.0 } else { 0.0 }).collect());
    v.push((0..lambda).map(|i| if i == lambda / 2 { f64::NEG_INFINITY } else { f64::INFINITY }).collect());
    v.push((0..lambda).map(|i| ((i * 2) % 3) as f64).collect());
    v
}

fn par_run_job(n: usize, lambda: usize) -> Job {
    job(format!("free runs n={} lambda={}", n, lambda), move |ctx| {
        let threads: Vec<usize> = ctx.tier.pick(vec![1, 2, 3, 5, 8], (1..=12).collect());
        let pools: Vec<(usize, rayon::ThreadPool)> = threads.into_iter().map(|t| (t, pool(t))).collect();
        for kind in [Kind::Sphere, Kind::Elli(3.0), Kind::Rosen, Kind::Rastrigin, Kind::Const(2.0), Kind::Lin(0, true), Kind::Cigar] {
            for mode in MODES {
                for w in WS {
                    for var in 0..3 {
                        let mut cfg = Cfg::new(vec![0.4; n], 0.6).lam(lambda).mode(mode).w(w).seed(5);
                        cfg.max_gens = Some(ctx.tier.pick(40, 200));
                        if var == 1 {
                            cfg.constraints = Some(Box::new(Bounds { lower: vec![-0.5; n], upper: vec![1.0; n] }));
                        }
                        if var == 2 {
                            cfg.fun_target = Some(0.05);
                            cfg.tol_stag = Some(3);
                        }
                        let mut a = Run::new(&cfg, kpol(kind)).auto();
                        let ta = a.es.run();
                        let sa = Snap::of(&a.es);
                        for (t, p) in &pools {
                            let b = Run::new(&cfg, kpol(kind)).auto();
                            let mut b = Move(b);
                            let tb = p.install(|| Move(b.get().es.run_parallel())).0;
                            let sb = Snap::of(&b.0.es);
                            ctx.trans(sb.gen as u64);
                            ctx.trace();
                            let mut f = Fp(cfg_fp(&cfg));
                            sb.fp(&mut f);
                            f.u(*t as u64);
                            ctx.state(f.0);
                            if !sa.same(&sb) || rset(&Some(ta.clone())) != rset(&Some(tb.clone())) {
                                ctx.viol("parallel-run", format!("{:?} n={} lambda={} {} w={} variant {} threads {}: {:?} / {:?}", kind, n, lambda, mname(mode), wname(w), var, t, ta, tb));
                                return;
                            }
                        }
                    }
                }
            }
        }
    })
}

pub fn p19(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    // a) all completion orders with as many threads as points; all schedules of smaller pools
    let mut sizes = vec![(2usize, 2usize), (3, 3), (4, 4), (5, 5), (3, 2), (4, 2), (5, 2), (4, 3), (5, 3), (2, 1), (4, 1), (6, 2), (3, 8), (4, 8)];
    if tier == Tier::Thorough {
        sizes.extend([(6, 6), (6, 3), (7, 2), (5, 4), (6, 4), (5, 8), (7, 3), (8, 2)]);
    }
    for (lambda, threads) in sizes {
        for part in 0..8 {
            js.push(job(format!("orders lambda={} threads={} part={}", lambda, threads, part), move |ctx| {
                let width = threads.min(lambda);
                let sch = schedules(lambda, width);
                let pats = interesting(lambda);
                let pl = pool(threads);
                let mut par = Par { overlap: if threads > 1 { 0 } else { 2 }, lonely: 0 };
                for (si, s) in sch.iter().enumerate() {
                    // every schedule with every pattern in every place of the history, and NaN at every position
                    if si % 8 != part {
                        continue;
                    }
                    let big = sch.len() > 150;
                    for (pi, p) in pats.iter().enumerate() {
                        if big && pi != si % pats.len() && pi != 0 {
                            continue;
                        }
                        let mode = MODES[(si + pi) % 2];
                        let cfg = Cfg::quiet(1 + pi % 3, lambda).mode(mode).w(WS[si % 3]).seed(pi as u64);
                        let ws = vec![p.clone(), pats[(pi + 3) % pats.len()].clone()];
                        let what = || format!("lambda={} threads={} {} schedule {:?}", lambda, threads, mname(mode), s);
                        ctx.sample(|| json!({"schedule": s, "answers": ws.clone(), "threads": threads}));
                        sched_walk(ctx, &cfg, &ws, s, &pl, threads, &mut par, &what);
                        if ctx.full() || par.lonely >= 3 && par.overlap < 2 {
                            return;
                        }
                    }
                    for k in 0..lambda {
                        if big && k != si % lambda {
                            continue;
                        }
                        for other in [None, Some((k + 1) % lambda)] {
                            let cfg = Cfg::quiet(2, lambda).seed(k as u64);
                            let mut w: Vec<f64> = (0..lambda).map(|i| i as f64).collect();
                            w[k] = f64::NAN;
                            if let Some(o) = other {
                                w[o] = f64::NAN;
                            }
                            let what = || format!("lambda={} threads={} invalid at {} and {:?} schedule {:?}", lambda, threads, k, other, s);
                            sched_walk(ctx, &cfg, &[pats[0].clone(), w], s, &pl, threads, &mut par, &what);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // b) all answer words under reversed and rotated completion orders
    for (lambda, alpha) in [(2usize, vec![f64::NEG_INFINITY, -0.0, 0.0, 1.0, f64::INFINITY]), (3, vec![-1.0, 0.0, 1.0]), (4, vec![0.0, 1.0])] {
        js.push(job(format!("words lambda={}", lambda), move |ctx| {
            let pl = pool(lambda);
            let mut par = Par { overlap: 0, lonely: 0 };
            let sch = schedules(lambda, lambda);
            for w in words(&alpha, lambda) {
                for s in &sch {
                    for mode in MODES {
                        let cfg = Cfg::quiet(2, lambda).mode(mode);
                        let what = || format!("lambda={} {} schedule {:?}", lambda, mname(mode), s);
                        sched_walk(ctx, &cfg, &[w.clone(), w.clone()], s, &pl, lambda, &mut par, &what);
                        if ctx.full() || par.lonely >= 3 && par.overlap < 2 {
                            return;
                        }
                    }
                }
            }
        }));
    }
    // c) whole runs, free schedules, every pool size
    for (n, lambda) in [(1usize, 2usize), (2, 6), (3, 7), (5, 40), (2, 150), (10, 10)] {
        js.push(par_run_job(n, lambda));
    }
    // d) optimisers inside the objective of an optimiser, all on one pool
    for threads in [1usize, 2, 3, 8] {
        js.push(job(format!("nested threads={}", threads), move |ctx| {
            let pl = pool(threads);
            for n in [1usize, 2, 3] {
                for lambda in [2usize, 5, 9] {
                    for (wi, w) in WS.into_iter().enumerate() {
                        for inner_par in [false, true] {
                            let gens = ctx.tier.pick(6, 20);
                            // the value of a point is what an inner run started there finds
                            let inner = move |x: &DVector<f64>, par: bool| -> f64 {
                                let mut c = Cfg::new(x.as_slice().to_vec(), 0.3).lam(4).seed(11 + wi as u64);
                                c.max_gens = Some(5);
                                let f = |x: &DVector<f64>| x.iter().map(|v| (v * 2.0).cos() + v * v).sum::<f64>();
                                let mut es = c.options().build(f).unwrap();
                                let r = if par { es.run_parallel() } else { es.run() };
                                r.overall_best.unwrap().value
                            };
                            let mut cfg = Cfg::new(vec![0.4; n], 0.6).lam(lambda).w(w).seed(lambda as u64);
                            cfg.max_gens = Some(gens);
                            let mut a = cfg.options().build(|x: &DVector<f64>| inner(x, false)).unwrap();
                            let ra = a.run();
                            let sa = Snap::of(&a);
                            let mut b = Move(cfg.options().build(move |x: &DVector<f64>| inner(x, inner_par)).unwrap());
                            let rb = pl.install(|| Move(b.get().run_parallel())).0;
                            let sb = Snap::of(&b.0);
                            ctx.trans(sb.gen as u64);
                            ctx.trace();
                            let mut f = Fp(cfg_fp(&cfg));
                            sb.fp(&mut f);
                            ctx.state(f.u(threads as u64).u(inner_par as u64).0);
                            if !sa.same(&sb) || rset(&Some(ra.clone())) != rset(&Some(rb.clone())) {
                                ctx.viol("nested", format!("n={} lambda={} threads={} {:?} inner runs parallel={}: {:?} / {:?}", n, lambda, threads, w, inner_par, sa, sb));
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
    // e) several optimisers at once, each from its own thread, sharing a pool
    for threads in [1usize, 2, 4] {
        js.push(job(format!("side by side threads={}", threads), move |ctx| {
            let pl = pool(threads);
            for round in 0..ctx.tier.pick(12u64, 80) {
                let mk = |k: usize| {
                    let mut c = Cfg::new(vec![0.4 + k as f64; 1 + k % 3], 0.6).lam(3 + k).w(WS[k % 3]).seed(round * 10 + k as u64).mode(MODES[k % 2]);
                    c.max_gens = Some(40);
                    c
                };
                let kinds = [Kind::Sphere, Kind::Rosen, Kind::Elli(3.0), Kind::Rastrigin, Kind::Cigar];
                let val = |k: usize, x: &DVector<f64>| kind_value(kinds[k], &Q { step: 0, idx: 0, x: x.as_slice(), mean: &[], sigma: 1.0 });
                let alone: Vec<Snap> = (0..5)
                    .map(|k| {
                        let mut es = mk(k).options().build(|x: &DVector<f64>| val(k, x)).unwrap();
                        es.run();
                        Snap::of(&es)
                    })
                    .collect();
                let together: Vec<Snap> = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..5)
                        .map(|k| {
                            let pl = &pl;
                            let mk = &mk;
                            let val = &val;
                            s.spawn(move || {
                                pl.install(|| {
                                    let mut es = mk(k).options().build(|x: &DVector<f64>| val(k, x)).unwrap();
                                    if k == 4 {
                                        es.run();
                                    } else {
                                        es.run_parallel();
                                    }
                                    Snap::of(&es)
                                })
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
                });
                for (k, (a, b)) in alone.iter().zip(&together).enumerate() {
                    let mut f = Fp(cfg_fp(&mk(k)));
                    b.fp(&mut f);
                    ctx.state(f.u(threads as u64).0);
                    ctx.trans(b.gen as u64);
                    ctx.trace();
                    if !a.same(b) {
                        ctx.viol("side-by-side", format!("optimiser {} run next to others on {} threads: {:?} / alone {:?}", k, threads, b, a));
                        return;
                    }
                }
            }
        }));
    }
    js
}

// ---------------------------------------------------------------------------------------------

#[derive(Debug, Clone)]
struct DebugGate(Arc<GateBox>);
struct GateBox(Gate);
impl std::fmt::Debug for GateBox {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "gate")
    }
}

/// Constraints with answers by point, passing through a gate
#[derive(Debug, Clone)]
struct GCons {
    gate: DebugGate,
    table: Arc<Mutex<HashMap<Vec<u64>, (usize, bool)>>>,
    asked: Arc<Mutex<Vec<Option<usize>>>>,
}

impl Constraints for GCons {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let e = self.table.lock().unwrap().get(&key(x.as_slice())).cloned();
        self.asked.lock().unwrap().push(e.map(|e| e.0));
        match e {
            Some((i, ok)) => {
                self.gate.0 .0.pass(i);
                ok
            }
            // later rounds
            None => true,
        }
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(self.clone())
    }
}

fn close(a: &[f64], b: &[f64], tol: f64) -> bool {
    let m = a.iter().chain(b).fold(1e-300f64, |m, v| m.max(v.abs()));
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol * m || x.to_bits() == y.to_bits())
}

/// Relative difference of two states (infinite if they are not comparable)
fn dist_diff(a: &Snap, b: &Snap) -> f64 {
    if a.gen != b.gen || a.evals != b.evals {
        return f64::INFINITY;
    }
    let rel = |x: &[f64], y: &[f64], m: f64| x.iter().zip(y).fold(0.0f64, |d, (u, v)| if u.to_bits() == v.to_bits() { d } else { let e = (u - v).abs() / m; if e.is_nan() { f64::INFINITY } else { d.max(e) } });
    let cm = crate::la::max_abs(&a.cov.a).max(1e-300);
    let std = a.sigma * cm.sqrt();
    let mm = a.mean.iter().fold(std, |m, v| m.max(v.abs())).max(1e-300);
    rel(&a.cov.a, &b.cov.a, cm).max(rel(&a.mean, &b.mean, mm)).max(rel(&[a.sigma], &[b.sigma], a.sigma.abs().max(1e-300)))
}

/// The reference model and the deviates of the seed in lock step with a run whose updates are parallel
fn model_walk(ctx: &mut Ctx, cfg: &Cfg, mk: &dyn Fn() -> Pol, steps: usize, pl: &rayon::ThreadPool, what: &str) {
    let mut cp = cfg.clone();
    cp.par_update = Some(true);
    let mut args = Move((ctx, cp, mk));
    pl.install(|| {
        let (ctx, cp, mk) = args.get();
        crate::checks::dist::lockstep(ctx, crate::checks::dist::Sel::Both, cp, mk(), steps, what, false);
        if cp.constraints.is_none() {
            crate::checks::sampling::p07_walk(ctx, cp, mk(), steps, what, None);
        }
    });
}

/// Lock step of a sequential and a parallel update, as long as both draw from unrotated axes
fn upd_walk(ctx: &mut Ctx, cfg: &Cfg, mk: &dyn Fn() -> Pol, steps: usize, pl: &rayon::ThreadPool, par_eval: bool, what: &dyn Fn() -> String) {
    let mut cp = cfg.clone();
    cp.par_update = Some(true);
    let mut cs = cfg.clone();
    cs.par_update = Some(false);
    let mut a = Run::new(&cs, mk());
    let mut b = Move(Run::new(&cp, mk()));
    if !b.0.es.parameters().parallel_update() || a.es.parameters().parallel_update() {
        ctx.viol("parallel-flag", format!("{}: the parallel_update setting is not reported", what()));
    }
    let id = cfg_fp(&cp);
    let n = cfg.dim() as f64;
    let mut err = 1e-15f64;
    for g in 0..steps {
        let allowed_pts = 1e3 * n * err;
        if allowed_pts > 1e-4 {
            ctx.count("walks_ended_by_rounding", 1);
            break;
        }
        let sa = a.next();
        let sb = pl.install(|| Move(if par_eval { b.get().next_parallel() } else { b.get().next() })).0;
        fp_step(ctx, id, &sb);
        let nan = sa.calls.iter().any(|c| c.f.is_nan());
        let smax = sa.before.sigma * sa.before.eig.iter().cloned().fold(0.0, f64::max).sqrt();
        let scale = sa.before.mean.iter().fold(smax, |m, v| m.max(v.abs())).max(1e-300);
        let w = || format!("{} generation {}", what(), g);
        let pd = |x: &[f64], y: &[f64]| x.iter().zip(y).fold(0.0f64, |d, (u, v)| d.max((u - v).abs() / scale));
        // the partner of every sequentially evaluated point
        let partner: Vec<usize> = if par_eval {
            sa.calls.iter().map(|c| (0..sb.calls.len()).min_by(|i, j| pd(&c.x, &sb.calls[*i].x).partial_cmp(&pd(&c.x, &sb.calls[*j].x)).unwrap_or(std::cmp::Ordering::Equal)).unwrap_or(0)).collect()
        } else {
            (0..sa.calls.len()).collect()
        };
        let mut uniq = partner.clone();
        uniq.sort();
        uniq.dedup();
        let dp = if sa.calls.len() != sb.calls.len() { f64::INFINITY } else { sa.calls.iter().zip(&partner).fold(0.0f64, |d, (c, i)| d.max(pd(&c.x, &sb.calls[*i].x))) };
        if !(nan && par_eval) && (!(dp <= allowed_pts) || uniq.len() != sa.calls.len()) {
            ctx.viol("update-points", format!("{}: points differ (by {:e}, {:e} can be rounding) or come in another order: {:?} / {:?}", w(), dp, allowed_pts, sa.calls.iter().map(|c| &c.x).collect::<Vec<_>>(), sb.calls.iter().map(|c| &c.x).collect::<Vec<_>>()));
            return;
        }
        // rounding may change the ranking of nearly equal values: the walk ends without a verdict
        if !nan {
            let mut swapped = false;
            for i in 0..sa.calls.len() {
                for j in 0..i {
                    if sa.calls[i].f.partial_cmp(&sa.calls[j].f) != sb.calls[partner[i]].f.partial_cmp(&sb.calls[partner[j]].f) {
                        swapped = true;
                    }
                }
            }
            if swapped {
                ctx.count("rankings_not_preserved_by_rounding", 1);
                break;
            }
        }
        err = err.max(dp);
        let mut e = sa.before.eig.clone();
        e.sort_by(|x, y| x.partial_cmp(y).unwrap_or(std::cmp::Ordering::Equal));
        let cond = e[e.len() - 1] / e[0];
        let allowed = 1e4 * n * err * cond.max(1.0);
        let d = dist_diff(&sa.after, &sb.after);
        if allowed > 1e-4 {
            ctx.count("walks_ended_by_rounding", 1);
            break;
        }
        if !(d <= allowed) {
            ctx.viol("update-state", format!("{}: difference {:e} ({:e} can be rounding): {:?} / sequential {:?}", w(), d, allowed, sb.after, sa.after));
            return;
        }
        err = err.max(d);
        // once the axes are no longer those of the coordinates, their signs and (if nearly equal) directions are at the mercy of
        // rounding, so that twins may draw different points: from then on the reference model decides
        if sa.after.eig.iter().chain(&sb.after.eig).any(|x| *x != 1.0) {
            break;
        }
        if !sa.after.finite() || sa.after.sigma < 1e-200 || sa.after.sigma > 1e200 || nan {
            break;
        }
    }
    ctx.trace();
}

/// A ball around the origin, remembering what it was asked
#[derive(Clone, Debug)]
struct Ball {
    r: f64,
    asked: Arc<Mutex<Vec<(Vec<f64>, bool)>>>,
}

impl Constraints for Ball {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let ok = x.iter().map(|v| v * v).sum::<f64>() <= self.r * self.r;
        self.asked.lock().unwrap().push((x.as_slice().to_vec(), ok));
        ok
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(self.clone())
    }
}

/// Constraints and parallel updates over long histories: the points asked about are the points evaluated
fn cons_walk(ctx: &mut Ctx, cfg: &Cfg, k: Kind, r: f64, steps: usize, pl: &rayon::ThreadPool, par_eval: bool, what: &dyn Fn() -> String) {
    let ball = Ball { r, asked: Default::default() };
    let mut cfg = cfg.clone();
    cfg.par_update = Some(true);
    cfg.constraints = Some(Box::new(ball.clone()));
    let lambda = cfg.lambda();
    let id = cfg_fp(&cfg);
    let mut run = Move(Run::new(&cfg, kpol(k)));
    for g in 0..steps {
        // what the distribution left behind cannot be drawn again
        let s = run.0.last.clone();
        if !s.finite() || crate::la::norm(&s.mean) > r || s.sigma * crate::la::max_abs(&s.cov.a).sqrt() > 4.0 * r || s.axis > 1e5 {
            break;
        }
        ball.asked.lock().unwrap().clear();
        let st = pl.install(|| Move(if par_eval { run.get().next_parallel() } else { run.get().next() })).0;
        fp_step(ctx, id, &st);
        let asked = ball.asked.lock().unwrap().clone();
        let sorted = |mut v: Vec<Vec<u64>>| {
            v.sort();
            v
        };
        let bits = |x: &Vec<f64>| x.iter().map(|v| v.to_bits()).collect::<Vec<u64>>();
        let ok = sorted(asked.iter().filter(|a| a.1).map(|a| bits(&a.0)).collect());
        let evaluated = sorted(st.calls.iter().map(|c| bits(&c.x)).collect());
        let bad = asked.iter().filter(|a| !a.1).count();
        let w = || format!("{} generation {}", what(), g);
        match cfg.resample_limit() {
            None => {
                if ok != evaluated || ok.len() != lambda {
                    ctx.viol("constrained-points", format!("{}: {} accepted points of {} asked are not the {} evaluated ones: {:?} / {:?}", w(), ok.len(), asked.len(), evaluated.len(), asked, st.calls));
                    return;
                }
            }
            Some(m) => {
                let rejected: Vec<Vec<u64>> = asked.iter().filter(|a| !a.1).map(|a| bits(&a.0)).collect();
                if evaluated.len() != lambda || asked.len() > m * lambda || ok.iter().any(|x| evaluated.binary_search(x).is_err()) || rejected.iter().any(|x| evaluated.binary_search(x).is_ok()) {
                    ctx.viol("constrained-points", format!("{}: {} asked ({} rejected, {} rounds), {} evaluated: {:?} / {:?}", w(), asked.len(), bad, m, evaluated.len(), asked, st.calls));
                    return;
                }
            }
        }
        ctx.count("constrained_generations", 1);
    }
    ctx.trace();
}

pub fn p20(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    // 0) constraints over long histories
    for threads in [1usize, 3, 8] {
        for n in [1usize, 2, 4, 9] {
            js.push(job(format!("constrained threads={} n={}", threads, n), move |ctx| {
                let pl = pool(threads);
                for (ki, k) in [Kind::Sphere, Kind::Elli(4.0), Kind::Lin(0, true), Kind::Cigar, Kind::Rosen].into_iter().enumerate() {
                    for lambda in [3usize, 6, 14] {
                        for max in [None, Some(None), Some(Some(1)), Some(Some(3))] {
                            for par_eval in [false, true] {
                                let mut cfg = Cfg::quiet(n, lambda).w(WS[(ki + lambda) % 3]).at(vec![0.3; n], 0.5).seed(ki as u64);
                                cfg.max_resamples = max;
                                let what = || format!("{:?} in a ball, n={} lambda={} resamples {:?} threads={} parallel evaluation={}", k, n, lambda, max, threads, par_eval);
                                cons_walk(ctx, &cfg, k, (n as f64).sqrt(), ctx.tier.pick(60, 300), &pl, par_eval, &what);
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    // a) constraint answers in every completion order
    for lambda in [2usize, 3, 4, 5] {
        for par_eval in [false, true] {
            for part in 0..4 {
                if lambda == 5 && tier == Tier::Quick && part != 0 {
                    continue;
                }
                js.push(job(format!("constraints lambda={} parallel evaluation={} part={}", lambda, par_eval, part), move |ctx| {
                    let pl = pool(lambda);
                    let sch = schedules(lambda, lambda);
                    let mut seen_overlap = 1;
                    for mask in 0..1usize << lambda {
                        for (si, s) in sch.iter().enumerate() {
                            if si % 4 != part || (lambda == 5 && ctx.tier == Tier::Quick && (si / 4 + mask) % 5 != 0) {
                                continue;
                            }
                            let n = 1 + mask % 3;
                            let gate = Arc::new(GateBox(Gate::default()));
                            let mk = || {
                                let c = GCons { gate: DebugGate(gate.clone()), table: Default::default(), asked: Default::default() };
                                let mut cfg = Cfg::quiet(n, lambda).seed(mask as u64 + 1);
                                cfg.constraints = Some(Box::new(c.clone()));
                                (cfg, c)
                            };
                            // first points: those of the unconstrained run
                            let mut first = Run::new(&Cfg::quiet(n, lambda).seed(mask as u64 + 1), kpol(Kind::Index));
                            let pts: Vec<Vec<f64>> = first.next().calls.iter().map(|c| c.x.clone()).collect();
                            let fill = |c: &GCons| {
                                let mut t = c.table.lock().unwrap();
                                for (i, x) in pts.iter().enumerate() {
                                    t.insert(key(x), (i, mask >> i & 1 == 1));
                                }
                            };
                            let (cs, c1) = mk();
                            fill(&c1);
                            gate.0.reset(true);
                            let mut a = Run::new(&cs, kpol(Kind::Index));
                            let sa = a.next();
                            let (mut cp, c2) = mk();
                            fill(&c2);
                            cp.par_update = Some(true);
                            let mut b = Move(Run::new(&cp, kpol(Kind::Index)));
                            let patience = if seen_overlap > 1 { Duration::from_millis(20) } else { Duration::from_millis(500) };
                            let (out, gr) = controlled(&gate.0, lambda, lambda, s, patience, || {
                                let b = &mut b;
                                pl.install(|| Move(if par_eval { b.get().next_parallel() } else { b.get().next() }))
                            });
                            seen_overlap = seen_overlap.max(gr.max_overlap);
                            let what = format!("lambda={} n={} accepted {:b} completion order {:?}", lambda, n, mask, gr.order);
                            ctx.sample(|| json!(what));
                            let sb = match out {
                                Ok(o) => o.0,
                                Err(m) => {
                                    ctx.viol("panic", format!("{}: panic {}", what, m));
                                    return;
                                }
                            };
                            let mut f = Fp::new("p20");
                            f.u(mask as u64).u(lambda as u64);
                            for i in &gr.order {
                                f.u(*i as u64);
                            }
                            sb.after.fp(&mut f);
                            ctx.state(f.0);
                            ctx.trans(1);
                            ctx.trace();
                            let mut pa: Vec<Vec<f64>> = sa.calls.iter().map(|c| c.x.clone()).collect();
                            let mut pb: Vec<Vec<f64>> = sb.calls.iter().map(|c| c.x.clone()).collect();
                            if par_eval {
                                pa.sort_by(|x, y| x.partial_cmp(y).unwrap());
                                pb.sort_by(|x, y| x.partial_cmp(y).unwrap());
                            }
                            if pa.len() != pb.len() || !pa.iter().zip(&pb).all(|(x, y)| close(x, y, 1e-12)) {
                                ctx.viol("sampling-order", format!("{}: points {:?}, sequentially {:?}", what, pb, pa));
                                return;
                            }
                            if !par_eval && !(dist_diff(&sa.after, &sb.after) <= 1e-10) {
                                ctx.viol("update-state", format!("{}: {:?} / sequential {:?}", what, sb.after, sa.after));
                                return;
                            }
                            // accepted points are not asked about again, rejected ones are replaced
                            let asked = c2.asked.lock().unwrap();
                            let mut known: Vec<usize> = asked.iter().flatten().cloned().collect();
                            known.sort();
                            known.dedup();
                            if known.len() != lambda {
                                ctx.viol("sampling-asked", format!("{}: constraints were asked about the samples {:?}", what, asked));
                                return;
                            }
                        }
                    }
                }));
            }
        }
    }
    // b) all rankings to a depth for every pool size
    for threads in [1usize, 2, 3, 4, 8] {
        for lambda in [2usize, 3, 4, 5] {
            js.push(job(format!("rankings threads={} lambda={}", threads, lambda), move |ctx| {
                let pl = pool(threads);
                let perms = permutations(lambda);
                let depth = match lambda {
                    2 => ctx.tier.pick(5, 8),
                    3 => ctx.tier.pick(3, 5),
                    4 => ctx.tier.pick(2, 3),
                    _ => ctx.tier.pick(1, 2),
                };
                let total = perms.len().pow(depth as u32);
                let stride = (total / ctx.tier.pick(400, 20000)).max(1) | 1;
                let mut i = 0;
                while i < total {
                    let mut ws = vec![];
                    let mut c = i;
                    for _ in 0..depth {
                        ws.push(perms[c % perms.len()].iter().map(|x| *x as f64).collect::<Vec<f64>>());
                        c /= perms.len();
                    }
                    let w = WS[i % 3];
                    let n = 1 + i % 4;
                    let cfg = Cfg::quiet(n, lambda).w(w).seed(i as u64 % 17);
                    let what = || format!("threads={} n={} w={} rankings {:?}", threads, n, wname(w), ws);
                    upd_walk(ctx, &cfg, &|| wpol(ws.clone()), depth + 2, &pl, false, &what);
                    model_walk(ctx, &cfg, &|| wpol(ws.clone()), depth + 2, &pl, &what());
                    if ctx.full() {
                        return;
                    }
                    i += stride;
                }
            }));
        }
    }
    // c) configuration lattice on landscapes
    for threads in [1usize, 2, 3, 4, 7, 8] {
        for lambda in [2usize, 5, 12, 33, 100] {
            for par_eval in [false, true] {
                js.push(job(format!("landscapes threads={} lambda={} parallel evaluation={}", threads, lambda, par_eval), move |ctx| {
                    let pl = pool(threads);
                    let kinds = if par_eval {
                        vec![Kind::Sphere, Kind::Elli(2.0), Kind::Lin(0, false)]
                    } else {
                        vec![Kind::Index, Kind::IndexRev, Kind::Hash(1), Kind::Ties(1, 3), Kind::Const(0.0), Kind::Sphere, Kind::Elli(2.0), Kind::Lin(0, false), Kind::Infs(2)]
                    };
                    for kind in kinds {
                        for n in [1usize, 2, 5, 12] {
                            for w in WS {
                                for boxed in [false, true] {
                                    for seed in 0..ctx.tier.pick(1u64, 8) {
                                        let mut cfg = Cfg::quiet(n, lambda).w(w).seed(seed).at(vec![0.2; n], 0.5);
                                        if boxed {
                                            cfg.constraints = Some(Box::new(Bounds { lower: vec![-0.4; n], upper: vec![1.2; n] }));
                                        }
                                        let what = || format!("{:?} n={} lambda={} w={} box={} threads={} parallel evaluation={} seed={}", kind, n, lambda, wname(w), boxed, threads, par_eval, seed);
                                        // answers by order of evaluation mean nothing in parallel
                                        upd_walk(ctx, &cfg, &|| kpol(kind), ctx.tier.pick(15, 60), &pl, par_eval, &what);
                                        if !par_eval && (ctx.tier == Tier::Thorough || lambda * n < 500) {
                                            model_walk(ctx, &cfg, &|| kpol(kind), ctx.tier.pick(15, 60), &pl, &what());
                                        }
                                        if ctx.full() {
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }));
            }
        }
    }
    // c') large populations
    for threads in [1usize, 3, 8] {
        for n in [1usize, 2, 4, 9] {
            js.push(job(format!("large populations threads={} n={}", threads, n), move |ctx| {
                let pl = pool(threads);
                for lambda in ctx.tier.pick(vec![64usize, 65, 127, 128, 129, 192, 255, 256, 257, 400, 513, 1025], vec![64, 65, 100, 127, 128, 129, 192, 255, 256, 257, 300, 400, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2049, 5000]) {
                    for w in WS {
                        for (ki, kind) in [Kind::Sphere, Kind::Elli(2.0), Kind::Hash(1), Kind::Index].into_iter().enumerate() {
                            for boxed in [false, true] {
                                if (ki == 0) == boxed {
                                    continue;
                                }
                                let mut cfg = Cfg::quiet(n, lambda).w(w).seed(lambda as u64).at(vec![0.2; n], 0.5);
                                if boxed {
                                    cfg.constraints = Some(Box::new(Bounds { lower: vec![-0.4; n], upper: vec![1.2; n] }));
                                }
                                let what = || format!("{:?} n={} lambda={} w={} box={} threads={}", kind, n, lambda, wname(w), boxed, threads);
                                upd_walk(ctx, &cfg, &|| kpol(kind), ctx.tier.pick(4, 12), &pl, false, &what);
                                if ki < 2 {
                                    upd_walk(ctx, &cfg, &|| kpol(kind), ctx.tier.pick(3, 12), &pl, true, &what);
                                }
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    // d) invalid values with parallel updates
    js.push(job("invalid", |ctx| {
        let pl = pool(4);
        for lambda in [2usize, 3, 6] {
            for g in 0..3usize {
                for i in 0..lambda {
                    for par_eval in [false, true] {
                        let mk = move || -> Pol {
                            Box::new(move |q| if q.step == g && q.idx == i { f64::NAN } else { q.x.iter().map(|v| v * v).sum() })
                        };
                        let cfg = Cfg::quiet(2, lambda);
                        let mut r = Move(Run::new(&{ let mut c = cfg.clone(); c.par_update = Some(true); c }, mk()));
                        for s in 0..=g {
                            let st = pl.install(|| Move(if par_eval { r.get().next_parallel() } else { r.get().next() })).0;
                            fp_step(ctx, 1, &st);
                            if s == g {
                                let bad = !st.after.same_dist(&st.before) || !st.after.same_bests(&st.before) || rset(&st.out) != ["InvalidFunctionValue"] || st.after.evals != st.before.evals + st.calls.len();
                                if bad {
                                    ctx.viol("update-invalid", format!("lambda={} generation {} position {}: {:?} {:?}", lambda, g, i, st.after, reasons(&st.out)));
                                }
                            }
                        }
                        ctx.trace();
                    }
                }
            }
        }
    }));
    js
}
