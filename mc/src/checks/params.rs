//! P21 strategy parameters and defaults, P22 validation and setters.

use crate::model::params;
use crate::rt::*;
use crate::sim::*;
use cmaes::options::InvalidOptionsError;
use cmaes::{Bounds, CMAESOptions, DVector, Mode, PlotOptions, Weights};
use serde_json::json;
use std::time::Duration;

fn rel(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a - b).abs() <= tol * a.abs().max(b.abs())
}

fn default_lambda(n: usize) -> usize {
    4 + (3.0 * (n as f64).ln()).floor() as usize
}

fn check_params(ctx: &mut Ctx, n: usize, lambda: Option<usize>, w: Option<Weights>, cm: Option<f64>, sigma: f64) {
    let mut cfg = Cfg::new(vec![0.0; n], sigma);
    cfg.lambda = lambda;
    cfg.weights = w;
    cfg.cm = cm;
    let es = cfg.options().build(|_: &DVector<f64>| 0.0).expect("valid options");
    let p = es.parameters();
    let lam = lambda.unwrap_or_else(|| default_lambda(n));
    let ws = w.unwrap_or(Weights::Negative);
    let what = format!("n={} lambda={:?} weights={:?} cm={:?} sigma={:e}", n, lambda, w, cm, sigma);
    ctx.trans(1);
    let mut f = Fp::new("p21");
    f.u(n as u64).u(lam as u64).s(wname(ws)).f(cm.unwrap_or(1.0));
    ctx.state(f.0);
    if p.dim() != n || p.lambda() != lam || p.initial_sigma() != sigma || p.weights_setting() != ws || p.cm() != cm.unwrap_or(1.0) {
        ctx.viol("basic", format!("{}: dim {} lambda {} sigma {:e} weights {:?} cm {:e}", what, p.dim(), p.lambda(), p.initial_sigma(), p.weights_setting(), p.cm()));
        return;
    }
    let m = params(n, lam, ws, cm.unwrap_or(1.0));
    if p.mu() != m.mu {
        ctx.viol("mu", format!("{}: mu {} expected {}", what, p.mu(), m.mu));
    }
    // differences of nearly equal quantities lose digits for huge dimensions
    let tol = 1e-9;
    for (name, a, b, zero) in [
        ("mu_eff", p.mu_eff(), m.mueff, 0.0),
        ("cc", p.cc(), m.cc, 0.0),
        ("c1", p.c1(), m.c1, 0.0),
        ("cs", p.cs(), m.cs, 0.0),
        ("cmu", p.cmu(), m.cmu, 1e-15),
        ("damp_s", p.damp_s(), m.damps, 0.0),
    ] {
        if !(rel(a, b, tol) || (a - b).abs() <= zero) {
            ctx.viol(name, format!("{}: {} is {:e}, expected {:e}", what, name, a, b));
        }
        if !a.is_finite() || a < 0.0 {
            ctx.viol("range", format!("{}: {} is {:e}", what, name, a));
        }
    }
    if !(p.cs() < 1.0 && p.cc() <= 1.0 && p.c1() + p.cmu() <= 1.0 + 1e-12 && p.damp_s() >= 1.0) {
        ctx.viol("range", format!("{}: rates out of range: cs {:e} cc {:e} c1 {:e} cmu {:e} damping {:e}", what, p.cs(), p.cc(), p.c1(), p.cmu(), p.damp_s()));
    }
    let pw = p.weights();
    // entries beyond the selected ones may be left out if they are zero
    let at = |i: usize| if i < pw.len() { pw[i] } else { 0.0 };
    if pw.len() > lam {
        ctx.viol("weights-length", format!("{}: {} weights", what, pw.len()));
        return;
    }
    for i in 0..lam {
        let e = m.w.get(i).cloned().unwrap_or(0.0);
        if !(rel(at(i), e, tol) || (at(i) - e).abs() < 1e-14) {
            ctx.viol("weights", format!("{}: weight {} is {:e}, expected {:e}", what, i, at(i), e));
            return;
        }
    }
    let pos: f64 = (0..lam.min(m.mu)).map(at).sum();
    if (pos - 1.0).abs() > 1e-9 {
        ctx.viol("weights-sum", format!("{}: the selected weights sum to {:e}", what, pos));
    }
    let neg: f64 = (0..lam).map(at).filter(|x| *x < 0.0).sum::<f64>().abs();
    for i in 1..lam {
        let down = if ws == Weights::Uniform { at(i) <= at(i - 1) } else if i < m.mu || (ws == Weights::Negative && neg > 1e-9) { at(i) < at(i - 1) } else { at(i) <= at(i - 1) + 1e-15 };
        if !down {
            ctx.viol("weights-order", format!("{}: weight {} ({:e}) is not below weight {} ({:e})", what, i, at(i), i - 1, at(i - 1)));
            return;
        }
    }
    if neg * n as f64 * p.cmu() > (1.0 - p.c1() - p.cmu()) * (1.0 + 1e-9) + 1e-12 {
        ctx.viol("weights-posdef", format!("{}: negative weights sum to {:e}: the update can lose positive definiteness", what, neg));
    }
    if ws != Weights::Negative && neg != 0.0 {
        ctx.viol("weights-negative", format!("{}: negative weights {:e}", what, neg));
    }
    // termination defaults
    let stag = 100 + (100.0 * (n as f64).powf(1.5) / lam as f64).ceil() as usize;
    let ok = p.tol_fun() == 1e-12
        && p.tol_fun_rel() == 0.0
        && p.tol_fun_hist() == 1e-12
        && rel(p.tol_x(), 1e-12 * sigma, 1e-12)
        && (p.tol_stagnation() as i64 - stag as i64).abs() <= if stag > 1_000_000 { 1 } else { 0 }
        && p.tol_x_up() == 1e8
        && p.tol_condition_cov() == 1e14
        && p.max_function_evals().is_none()
        && p.max_generations().is_none()
        && p.max_time().is_none()
        && p.fun_target().is_none()
        && p.mode() == Mode::Minimize
        && !p.parallel_update();
    if !ok {
        ctx.viol(
            "defaults",
            format!(
                "{}: tol_fun {:e} rel {:e} hist {:e} tol_x {:e} stagnation {} (expected {}) up {:e} condition {:e} evals {:?} gens {:?} time {:?} target {:?} mode {:?} parallel {}",
                what, p.tol_fun(), p.tol_fun_rel(), p.tol_fun_hist(), p.tol_x(), p.tol_stagnation(), stag, p.tol_x_up(), p.tol_condition_cov(), p.max_function_evals(), p.max_generations(), p.max_time(), p.fun_target(), p.mode(), p.parallel_update()
            ),
        );
    }
}

/// Everything a user can set that is reported back. Bit k of the mask sets option k.
const SETTABLE: usize = 16;

fn set(c: &mut Cfg, k: usize, alt: bool) {
    match k {
        0 => c.lambda = Some(if alt { 2 } else { 9 }),
        1 => c.weights = Some(if alt { Weights::Uniform } else { Weights::Positive }),
        2 => c.cm = Some(if alt { 0.25 } else { 0.75 }),
        3 => c.mode = Some(if alt { Mode::Minimize } else { Mode::Maximize }),
        4 => c.seed = Some(if alt { 0 } else { 12345 }),
        5 => c.par_update = Some(!alt),
        6 => c.max_evals = Some(if alt { 0 } else { 77 }),
        7 => c.max_gens = Some(if alt { 0 } else { 88 }),
        8 => c.max_time = Some(if alt { Duration::ZERO } else { Duration::from_millis(99_000) }),
        9 => c.fun_target = Some(if alt { 0.0 } else { -5.5 }),
        10 => c.tol_fun = Some(if alt { 0.0 } else { 0.11 }),
        11 => c.tol_fun_rel = Some(if alt { 0.0 } else { 0.12 }),
        12 => c.tol_fun_hist = Some(if alt { 0.0 } else { 0.13 }),
        13 => c.tol_x = Some(if alt { 0.0 } else { 0.14 }),
        14 => c.tol_stag = Some(if alt { 0 } else { 15 }),
        _ => {
            c.tol_x_up = Some(if alt { 0.0 } else { 16.0 });
            c.tol_cond = Some(if alt { 1.0 } else { 17.0 });
        }
    }
}

fn check_reported(ctx: &mut Ctx, cfg: &Cfg, what: &dyn Fn() -> String) {
    let es = cfg.options().build(|_: &DVector<f64>| 0.0).expect("valid options");
    let p = es.parameters();
    let n = cfg.dim();
    let lam = cfg.lambda();
    ctx.trans(1);
    let mut bad = vec![];
    let mut eq = |name: &str, ok: bool| {
        if !ok {
            bad.push(name.to_string());
        }
    };
    eq("lambda", p.lambda() == lam);
    eq("weights", p.weights_setting() == cfg.weights.unwrap_or(Weights::Negative));
    eq("cm", p.cm() == cfg.cm.unwrap_or(1.0));
    eq("mode", p.mode() == cfg.mode.unwrap_or(Mode::Minimize));
    eq("seed", cfg.seed.map_or(true, |s| p.seed() == s));
    eq("parallel_update", p.parallel_update() == cfg.par_update.unwrap_or(false));
    eq("max_function_evals", p.max_function_evals() == cfg.max_evals);
    eq("max_generations", p.max_generations() == cfg.max_gens);
    eq("max_time", p.max_time() == cfg.max_time);
    eq("fun_target", p.fun_target() == cfg.fun_target);
    eq("tol_fun", p.tol_fun() == cfg.tol_fun.unwrap_or(1e-12));
    eq("tol_fun_rel", p.tol_fun_rel() == cfg.tol_fun_rel.unwrap_or(0.0));
    eq("tol_fun_hist", p.tol_fun_hist() == cfg.tol_fun_hist.unwrap_or(1e-12));
    eq("tol_x", rel(p.tol_x(), cfg.tol_x.unwrap_or(1e-12 * cfg.sigma), if cfg.tol_x.is_some() { 0.0 } else { 1e-12 }));
    eq("tol_stagnation", p.tol_stagnation() == cfg.tol_stag.unwrap_or(100 + (100.0 * (n as f64).powf(1.5) / lam as f64).ceil() as usize));
    eq("tol_x_up", p.tol_x_up() == cfg.tol_x_up.unwrap_or(1e8));
    eq("tol_condition_cov", p.tol_condition_cov() == cfg.tol_cond.unwrap_or(1e14));
    eq("initial_sigma", p.initial_sigma() == cfg.sigma);
    eq("dim", p.dim() == n);
    // the distribution starts as configured and nothing has been done yet
    eq("initial state", es.sigma() == cfg.sigma && bits(es.mean().as_slice(), &cfg.mean) && es.generation() == 0 && es.function_evals() == 0);
    if !bad.is_empty() {
        ctx.viol("reported", format!("{}: options not reported back as set: {:?}: {:?}", what(), bad, p));
    }
}

pub fn p21(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    let sigmas = [1.0f64, 0.3, 1e-200, 1e200, f64::MIN_POSITIVE, f64::MAX];
    // a) grid
    let nmax = tier.pick(80usize, 300);
    for n in 1..=nmax {
        js.push(job(format!("grid n={}", n), move |ctx| {
            let lmax = ctx.tier.pick(130, 600);
            let lams: Vec<Option<usize>> = std::iter::once(None).chain((2..=lmax).map(Some)).chain([1000, 1001, 4096].map(Some)).collect();
            for (li, lambda) in lams.into_iter().enumerate() {
                for w in [None, Some(Weights::Negative), Some(Weights::Positive), Some(Weights::Uniform)] {
                    for cm in [None, Some(0.37)] {
                        check_params(ctx, n, lambda, w, cm, sigmas[(li + n) % sigmas.len()]);
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }
            ctx.trace();
            ctx.sample(|| json!({"n": n, "lambda": "default, 2.."}));
        }));
    }
    js.push(job("large", |ctx| {
        for n in [100usize, 128, 150, 200, 256, 300] {
            for lambda in [None, Some(2), Some(3), Some(n), Some(10 * n + 1), Some(20_000)] {
                for w in WS {
                    check_params(ctx, n, lambda, Some(w), None, 1.0);
                }
            }
            ctx.trace();
        }
    }));
    // b) every subset of options, both values
    for part in 0..16usize {
        js.push(job(format!("subsets part={}", part), move |ctx| {
            for mask in (0..1usize << SETTABLE).filter(|m| m % 16 == part) {
                for alt in [0usize, usize::MAX, 0b0101_0101_0101_0101] {
                    let mut cfg = Cfg::new(vec![0.5; 1 + mask % 5], 0.25 + (mask % 7) as f64);
                    cfg.seed = None;
                    for k in 0..SETTABLE {
                        if mask >> k & 1 == 1 {
                            set(&mut cfg, k, alt >> k & 1 == 1);
                        }
                    }
                    let mut f = Fp::new("subset");
                    f.u(mask as u64).u(alt as u64);
                    ctx.state(f.0);
                    check_reported(ctx, &cfg, &|| format!("{:?}", cfg));
                    if ctx.full() {
                        return;
                    }
                }
            }
            ctx.trace();
        }));
    }
    // c) parameters stay what they are while the optimiser runs
    js.push(job("constant", |ctx| {
        for n in [1usize, 2, 5] {
            for lambda in [2usize, 5, 20] {
                for w in WS {
                    for kind in [Kind::Sphere, Kind::Lin(0, false), Kind::Hash(1)] {
                        let cfg = Cfg::quiet(n, lambda).w(w);
                        let mut r = Run::new(&cfg, kpol(kind));
                        let before = format!("{:?}", r.es.parameters());
                        for _ in 0..20 {
                            let _ = r.raw_next();
                            ctx.trans(1);
                        }
                        ctx.trace();
                        if format!("{:?}", r.es.parameters()) != before {
                            ctx.viol("changed", format!("parameters changed during a run: {} -> {:?}", before, r.es.parameters()));
                        }
                    }
                }
            }
        }
    }));
    js
}

// ---------------------------------------------------------------------------------------------

fn normal_positive(x: f64) -> bool {
    x.is_normal() && x > 0.0
}

/// The setters; value `v` selects among the settings, the first three of which are usual and valid
const NSET: usize = 22;
const NVAL: usize = 6;
const FS: [f64; NVAL] = [0.5, 0.125, 1.0, 1e-300, f64::NAN, f64::INFINITY];
const US: [usize; NVAL] = [3, 5, 8, 1001, 0, usize::MAX];
const DIMS: [usize; NVAL] = [2, 2, 2, 40, 0, 1];
const RESAMPLES: [Option<usize>; NVAL] = [None, Some(0), Some(4), Some(1000), Some(7), Some(usize::MAX)];

fn apply(o: CMAESOptions, k: usize, v: usize) -> CMAESOptions {
    let (f, u) = (FS[v], US[v]);
    match k {
        0 => o.mode([Mode::Maximize, Mode::Minimize, Mode::Maximize][v % 3]),
        1 => o.initial_mean(vec![f; DIMS[v]]),
        2 => o.initial_step_size(f),
        3 => o.population_size(u),
        4 => {
            if v == 0 {
                o.bounds(vec![-9.0; 2], vec![9.0; 2])
            } else {
                o.constraints(Box::new(Bounds { lower: vec![-f - 5.0; 2], upper: vec![f + 5.0; 2] }))
            }
        }
        5 => o.max_resamples(RESAMPLES[v]),
        6 => o.weights(WS[v % 3]),
        7 => o.parallel_update(v % 3 == 0),
        8 => o.cm(f),
        9 => o.max_function_evals(u),
        10 => o.max_generations(u),
        11 => o.max_time(Duration::from_secs(u as u64)),
        12 => o.fun_target(f),
        13 => o.tol_fun(f),
        14 => o.tol_fun_rel(f),
        15 => o.tol_fun_hist(f),
        16 => o.tol_x(f),
        17 => o.tol_stagnation(u),
        18 => o.tol_x_up(f),
        19 => o.tol_condition_cov(f),
        20 => o.seed(u as u64),
        _ => {
            if v % 3 == 2 {
                o.enable_printing(u)
            } else {
                o.enable_plot(PlotOptions::new(u, v % 3 == 0))
            }
        }
    }
}

/// The same by assigning the public fields
fn assign(o: &mut CMAESOptions, k: usize, v: usize) {
    let (f, u) = (FS[v], US[v]);
    match k {
        0 => o.mode = [Mode::Maximize, Mode::Minimize, Mode::Maximize][v % 3],
        1 => o.initial_mean = vec![f; DIMS[v]].into(),
        2 => o.initial_step_size = f,
        3 => o.population_size = u,
        4 => o.constraints = Some(Box::new(if v == 0 { Bounds { lower: vec![-9.0; 2], upper: vec![9.0; 2] } } else { Bounds { lower: vec![-f - 5.0; 2], upper: vec![f + 5.0; 2] } })),
        5 => o.max_resamples = RESAMPLES[v],
        6 => o.weights = WS[v % 3],
        7 => o.parallel_update = v % 3 == 0,
        8 => o.cm = f,
        9 => o.max_function_evals = Some(u),
        10 => o.max_generations = Some(u),
        11 => o.max_time = Some(Duration::from_secs(u as u64)),
        12 => o.fun_target = Some(f),
        13 => o.tol_fun = f,
        14 => o.tol_fun_rel = f,
        15 => o.tol_fun_hist = f,
        16 => o.tol_x = Some(f),
        17 => o.tol_stagnation = Some(u),
        18 => o.tol_x_up = f,
        19 => o.tol_condition_cov = f,
        20 => o.seed = Some(u as u64),
        _ => {
            if v % 3 == 2 {
                o.print_gap_evals = Some(u)
            } else {
                o.plot_options = Some(PlotOptions::new(u, v % 3 == 0))
            }
        }
    }
}

fn first_generation(ctx: &mut Ctx, cfg: &Cfg, what: &dyn Fn() -> String) {
    for val in [0.0, 1.0] {
        let c2 = cfg.clone();
        let r = guarded(|| {
            let mut k = 0.0;
            let mut r = Run::new(&c2, Box::new(move |_| {
                k += val;
                k
            }));
            let st = r.next();
            (st.calls.len(), st.after.gen, rset(&st.out))
        });
        ctx.trans(1);
        ctx.trace();
        match r {
            Ok((c, g, rs)) => {
                if c != cfg.lambda() || (g != 1 && rs != ["PosDefCov"]) {
                    ctx.viol("first-generation", format!("{}: the first generation made {} of {} evaluations, generation is {} ({:?})", what(), c, cfg.lambda(), g, rs));
                }
            }
            Err(m) => ctx.viol("first-generation-panic", format!("{}: {}", what(), m)),
        }
    }
}

use crate::checks::equiv::rset;

fn setter_sequence(ctx: &mut Ctx, base: &CMAESOptions, seq: &[(usize, usize)]) {
    let mut o = base.clone();
    let mut e = base.clone();
    for (k, v) in seq {
        o = apply(o, *k, *v);
    }
    // the last setting of each option, in another order
    let mut last: Vec<(usize, usize)> = vec![];
    for (k, v) in seq {
        // plot and printing share a number
        last.retain(|(k2, v2)| k2 != k || (*k == 21 && (*v2 % 3 == 2) != (*v % 3 == 2)));
        last.push((*k, *v));
    }
    last.sort();
    last.reverse();
    for (k, v) in &last {
        assign(&mut e, *k, *v);
    }
    ctx.trans(seq.len() as u64);
    let (a, b) = (format!("{:?}", o), format!("{:?}", e));
    ctx.state(Fp::new(&a).0);
    ctx.trace();
    if a != b {
        ctx.viol("setters", format!("setters {:?}: options are {}, expected {}", seq, a, b));
    }
}

pub fn p22(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    let sub = f64::MIN_POSITIVE / 2.0;
    let sigmas = [f64::NAN, f64::NEG_INFINITY, -1.0, -f64::MIN_POSITIVE, -0.0, 0.0, 5e-324, sub, f64::MIN_POSITIVE, 1e-300, 1e-10, 1.0, 1e10, 1e150, 1e300, f64::MAX, f64::INFINITY];
    let cms = [f64::NAN, f64::NEG_INFINITY, -1.0, -0.0, 0.0, 5e-324, sub, f64::MIN_POSITIVE, 1e-10, 0.5, 1.0 - f64::EPSILON / 2.0, 1.0, 1.0 + f64::EPSILON, 2.0, f64::INFINITY];
    // a) the validated options
    for (si, sigma) in sigmas.into_iter().enumerate() {
        js.push(job(format!("validation sigma={}", si), move |ctx| {
            for n in [0usize, 1, 2, 3, 17] {
                for lambda in [None, Some(0usize), Some(1), Some(2), Some(3), Some(50)] {
                    for cm in std::iter::once(None).chain(cms.into_iter().map(Some)) {
                        for w in WS {
                            let lam = match (lambda, n) {
                                (Some(l), _) => l,
                                (None, 0) => 4,
                                (None, n) => default_lambda(n),
                            };
                            let mut cfg = Cfg::new(vec![0.5; n], sigma).w(w);
                            cfg.lambda = lambda;
                            cfg.cm = cm;
                            let what = || format!("n={} lambda={:?} sigma={:e} cm={:?}", n, lambda, sigma, cm);
                            let mut errs = vec![];
                            if n == 0 {
                                errs.push(InvalidOptionsError::Dimensions);
                            }
                            // the default population of no dimensions means nothing
                            if lam < 2 {
                                errs.push(InvalidOptionsError::PopulationSize);
                            }
                            if !normal_positive(sigma) {
                                errs.push(InvalidOptionsError::InitialStepSize);
                            }
                            if let Some(c) = cm {
                                if !normal_positive(c) || c > 1.0 {
                                    errs.push(InvalidOptionsError::Cm);
                                }
                            }
                            ctx.trans(1);
                            let mut f = Fp::new("p22");
                            f.u(n as u64).u(lambda.map_or(9999, |l| l as u64)).f(sigma).f(cm.unwrap_or(7.0));
                            ctx.state(f.0);
                            match guarded(|| cfg.options().build(|_: &DVector<f64>| 0.0).err()) {
                                Err(m) => ctx.viol("build-panic", format!("{}: {}", what(), m)),
                                Ok(None) => {
                                    if !errs.is_empty() {
                                        ctx.viol("invalid-accepted", format!("{}: accepted, expected {:?}", what(), errs));
                                    } else {
                                        first_generation(ctx, &cfg, &what);
                                    }
                                }
                                Ok(Some(e)) => {
                                    if errs.is_empty() {
                                        ctx.viol("valid-rejected", format!("{}: rejected with {:?}", what(), e));
                                    } else if !errs.contains(&e) {
                                        ctx.viol("wrong-error", format!("{}: rejected with {:?}, expected one of {:?}", what(), e, errs));
                                    }
                                }
                            }
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
    // b) odd values of everything else build and run
    js.push(job("odd values", |ctx| {
        let odd = [f64::NAN, f64::NEG_INFINITY, -1.0, -0.0, 0.0, 5e-324, 1e-300, 1.0, 1e300, f64::INFINITY];
        let oddu = [0usize, 1, 2, 1000, usize::MAX / 2, usize::MAX - 1, usize::MAX];
        for n in [1usize, 3] {
            for k in 0..15usize {
                let vals = if k < 8 { odd.len() } else { oddu.len() };
                for v in 0..vals {
                    for both in [false, true] {
                        let mut cfg = Cfg::new(vec![0.5; n], 1.0).lam(4);
                        match k {
                            0 => cfg.mean = vec![odd[v]; n],
                            1 => cfg.fun_target = Some(odd[v]),
                            2 => cfg.tol_fun = Some(odd[v]),
                            3 => cfg.tol_fun_rel = Some(odd[v]),
                            4 => cfg.tol_fun_hist = Some(odd[v]),
                            5 => cfg.tol_x = Some(odd[v]),
                            6 => cfg.tol_x_up = Some(odd[v]),
                            7 => cfg.tol_cond = Some(odd[v]),
                            8 => cfg.max_evals = Some(oddu[v]),
                            9 => cfg.max_gens = Some(oddu[v]),
                            10 => cfg.tol_stag = Some(oddu[v]),
                            11 => cfg.print = Some(oddu[v]),
                            12 => cfg.plot = Some((oddu[v], false)),
                            13 => cfg.max_time = Some(if v == 6 { Duration::MAX } else { Duration::from_nanos(oddu[v] as u64) }),
                            _ => cfg.max_resamples = Some(Some(oddu[v].min(1000))),
                        }
                        if k == 14 {
                            // an empty box: nothing is accepted, the limit ends the resampling
                            cfg.constraints = Some(Box::new(Bounds { lower: vec![1.0; n], upper: vec![-1.0; n] }));
                        }
                        if both {
                            cfg.mode = Some(Mode::Maximize);
                            cfg.par_update = Some(true);
                        }
                        let what = || format!("option {} value {} n={} {:?}", k, v, n, cfg);
                        ctx.state(Fp::new(&what()).0);
                        capture(|| first_generation(ctx, &cfg, &what));
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }
        }
    }));
    // c) setter sequences: usual values to depth 3 (4), unusual ones among all of them to depth 2 (3)
    for (nv, from, len) in [(3, 0, tier.pick(2, 3)), (NVAL, 3, tier.pick(1, 2))] {
        let menu: Vec<(usize, usize)> = (0..NSET).flat_map(|k| (0..nv).map(move |v| (k, v))).collect();
        for first in 0..NSET {
            let menu = menu.clone();
            js.push(job(format!("setters first={} of {}", first, nv), move |ctx| {
                let base = CMAESOptions::new(vec![1.0, 2.0], 2.0);
                for v in from..nv {
                    for s in sequences(menu.len(), len) {
                        let seq: Vec<(usize, usize)> = std::iter::once((first, v)).chain(s.iter().map(|i| menu[*i])).collect();
                        setter_sequence(ctx, &base, &seq);
                        // and as the last of the sequence
                        if from > 0 {
                            let seq: Vec<(usize, usize)> = s.iter().map(|i| menu[*i]).chain(std::iter::once((first, v))).collect();
                            setter_sequence(ctx, &base, &seq);
                        }
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // d) every order of all setters of small groups, built and run
    js.push(job("orders", |ctx| {
        for group in [[0usize, 3, 6, 8, 20], [2, 1, 16, 20, 3], [4, 5, 20, 7, 1], [9, 10, 12, 20, 0], [13, 14, 15, 17, 20]] {
            for v in 0..3 {
                let mut reference: Option<Vec<Snap>> = None;
                for p in permutations(5) {
                    let mut o = CMAESOptions::new(vec![1.0, 2.0], 2.0).seed(4);
                    for i in &p {
                        o = apply(o, group[*i], v);
                    }
                    let mut es = o.build(|x: &DVector<f64>| x.iter().map(|v| v * v).sum::<f64>()).expect("valid options");
                    let mut tr = vec![];
                    for _ in 0..4 {
                        let _ = es.next();
                        tr.push(Snap::of(&es));
                        ctx.trans(1);
                    }
                    ctx.trace();
                    match &reference {
                        None => reference = Some(tr),
                        Some(r) => {
                            if !r.iter().zip(&tr).all(|(a, b)| if group.contains(&7) && v == 0 { a.same_dist(b) || a.gen == b.gen } else { a.same(b) }) {
                                ctx.viol("setter-order", format!("group {:?} value {} order {:?}: another run", group, v, p));
                                return;
                            }
                        }
                    }
                }
            }
        }
    }));
    let _ = tier;
    js
}
