//! Driver for P36, compiled twice: with the crate's default features and without them. Uses nothing but the API that
//! exists in both, and returns one line per step or run.

use cmaes::objective_function::Scale;
use cmaes::restart::{Local, RestartOptions, RestartStrategy, BIPOP, IPOP};
use cmaes::{fmax, fmin, Bounds, CMAESOptions, DVector, Mode, Weights, CMAES};

pub const GROUPS: [&str; 12] = ["n=1", "n=2", "n=3", "n=5", "options", "alone", "invalid", "long", "cap", "print", "restarts", "wrappers"];

fn mix(h: &mut u64, x: u64) {
    let mut z = *h ^ x.wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    *h = z ^ (z >> 31);
}

/// Everything that can be observed, as bits
fn state<F>(es: &CMAES<F>) -> String {
    let mut h = 1;
    for v in es.mean().iter().chain(es.covariance_matrix().iter()).chain(es.eigenvalues().iter()) {
        mix(&mut h, v.to_bits());
    }
    let ind = |i: Option<&cmaes::Individual>| match i {
        Some(i) => {
            let mut h = i.value.to_bits();
            for v in i.point.iter() {
                mix(&mut h, v.to_bits());
            }
            format!("{:x}", h)
        }
        None => "-".into(),
    };
    format!(
        "{} {} {:x} {:x} {:x} {} {}",
        es.generation(),
        es.function_evals(),
        es.sigma().to_bits(),
        es.axis_ratio().to_bits(),
        h,
        ind(es.current_best_individual()),
        ind(es.overall_best_individual())
    )
}

fn landscape(k: usize, x: &DVector<f64>) -> f64 {
    let n = x.len();
    match k {
        0 => x.iter().map(|v| v * v).sum(),
        1 => (0..n).map(|i| 10f64.powi(i as i32) * (x[i] - 0.2).powi(2)).sum(),
        2 => x.iter().map(|v| 10.0 + v * v - 10.0 * (6.283185307179586 * v).cos()).sum(),
        3 => -x[0],
        4 => 1.0,
        5 => x.iter().map(|v| v.abs()).sum::<f64>().floor(),
        _ => {
            if x[0] > 0.5 {
                f64::INFINITY
            } else {
                x.iter().map(|v| (v + 1.0).abs()).sum()
            }
        }
    }
}

const WS: [Weights; 3] = [Weights::Negative, Weights::Positive, Weights::Uniform];

fn steps(out: &mut Vec<String>, name: String, o: CMAESOptions, f: impl Fn(&DVector<f64>) -> f64 + Sync, gens: usize, par: bool, beyond: bool) {
    let mut es = o.build(f).expect("valid configuration");
    out.push(format!("{} start {}", name, state(&es)));
    for g in 0..gens {
        let r = if par { es.next_parallel() } else { es.next() };
        let mut line = format!("{} step {} {}", name, g, state(&es));
        if let Some(r) = &r {
            let mut rs: Vec<String> = r.reasons.iter().map(|r| format!("{:?}", r)).collect();
            rs.sort();
            line.push_str(&rs.join(","));
        }
        out.push(line);
        if r.is_some() && !beyond {
            break;
        }
    }
}

pub fn run(group: &str, thorough: bool) -> Vec<String> {
    let mut out = vec![];
    let gens = if thorough { 120 } else { 30 };
    match group {
        "options" => {
            for k in 0..7 {
                for w in WS {
                    for var in 0..12 {
                        let o = CMAESOptions::new(vec![0.4; 2], 0.7).seed(var as u64 + 3).weights(w);
                        let o = match var {
                            0 => o.fun_target(0.01),
                            1 => o.max_function_evals(77),
                            2 => o.max_generations(9),
                            3 => o.tol_fun(1e-2),
                            4 => o.tol_fun_rel(1e-3),
                            5 => o.tol_fun_hist(1e-1),
                            6 => o.tol_x(1e-2),
                            7 => o.tol_stagnation(4),
                            8 => o.tol_x_up(3.0),
                            9 => o.tol_condition_cov(4.0),
                            10 => o.cm(0.5).population_size(11),
                            _ => o.constraints(Box::new(Bounds { lower: vec![-0.3; 2], upper: vec![0.9; 2] })).max_resamples(Some(2)),
                        };
                        steps(&mut out, format!("option {} landscape {} {:?}", var, k, w), o, |x| landscape(k, x), 6 * gens, false, false);
                    }
                }
            }
        }
        // every criterion on its own: all others are switched off
        "alone" => {
            for k in 0..7 {
                for mode in [Mode::Minimize, Mode::Maximize] {
                    for var in 0..10 {
                        for level in 0..3usize {
                            let t = [1e-2, 1e-6, 1e-12][level];
                            let o = CMAESOptions::new(vec![3.0, -1.0], 1.0).seed(level as u64 + 1).mode(mode).tol_fun(0.0).tol_fun_rel(0.0).tol_fun_hist(0.0).tol_x(0.0).tol_x_up(f64::MAX).tol_condition_cov(f64::MAX).tol_stagnation(usize::MAX);
                            let o = match var {
                                0 => o.tol_fun(t),
                                1 => o.tol_fun_rel(t),
                                2 => o.tol_fun_hist(t),
                                3 => o.tol_x(t),
                                4 => o.tol_x_up([2.0, 1e2, 1e4][level]),
                                5 => o.tol_condition_cov([3.0, 1e3, 1e8][level]),
                                6 => o.tol_stagnation([1, 20, 90][level]),
                                7 => o.fun_target([10.0, -1.0, 1e-9][level]),
                                8 => o.max_function_evals([0, 50, 333][level]),
                                _ => o.max_generations([0, 13, 77][level]),
                            };
                            let sign = if mode == Mode::Maximize { -1.0 } else { 1.0 };
                            let mut es = o.build(move |x: &DVector<f64>| sign * landscape(k, x)).unwrap();
                            let mut r = None;
                            for _ in 0..10 * gens {
                                r = es.next();
                                if r.is_some() {
                                    break;
                                }
                            }
                            let mut rs: Vec<String> = r.iter().flat_map(|r| r.reasons.iter()).map(|r| format!("{:?}", r)).collect();
                            rs.sort();
                            out.push(format!("alone {} level {} landscape {} {:?} {} {:?}", var, level, k, mode, state(&es), rs));
                        }
                    }
                }
            }
        }
        "invalid" => {
            for at in 0..40 {
                for par in [false, true] {
                    let c = std::sync::atomic::AtomicUsize::new(0);
                    let f = move |x: &DVector<f64>| {
                        if c.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == at {
                            f64::NAN
                        } else {
                            landscape(1, x)
                        }
                    };
                    let mut es = CMAESOptions::new(vec![0.4; 2], 0.7).seed(at as u64).population_size(4).build(f).unwrap();
                    for g in 0..14 {
                        let r = if par { es.next_parallel() } else { es.next() };
                        let line = format!("invalid value at {} step {} {} {:?}", at, g, state(&es), r.map(|r| r.reasons));
                        // in parallel it is left open which evaluations still happen
                        out.push(if par { es.generation().to_string() } else { line });
                    }
                }
            }
        }
        "long" => {
            for n in [1usize, 2] {
                for k in [0, 4, 5] {
                    let mut es = CMAESOptions::new(vec![0.4; n], 0.7)
                        .seed(5)
                        .population_size(2)
                        .tol_stagnation(10)
                        .build(|x: &DVector<f64>| landscape(k, x))
                        .unwrap();
                    for g in 0..if thorough { 60_000 } else { 24_000 } {
                        let r = es.next();
                        if g % 500 == 0 {
                            out.push(format!("long n={} landscape {} step {} {} {:?}", n, k, g, state(&es), r.map(|r| r.reasons)));
                        }
                    }
                }
            }
        }
        // histories longer than those that are kept: every change of the verdict
        "cap" => {
            out.push(format!("longest history {}", cmaes::MAX_HISTORY_LENGTH));
            for (mode, min) in [(Mode::Minimize, 9_000usize), (Mode::Maximize, 20_000), (Mode::Minimize, 20_001)] {
                if min < 20_000 && !thorough {
                    continue;
                }
                let mut g = 0usize;
                let sign = if mode == Mode::Maximize { -1.0 } else { 1.0 };
                let mut es = CMAESOptions::new(vec![0.4], 0.7)
                    .seed(5)
                    .mode(mode)
                    .population_size(2)
                    .weights(Weights::Positive)
                    .tol_fun(0.0)
                    .tol_fun_hist(0.0)
                    .tol_x(0.0)
                    .tol_x_up(f64::MAX)
                    .tol_condition_cov(f64::MAX)
                    .tol_stagnation(min)
                    .build(|_: &DVector<f64>| {
                        g += 1;
                        let k = g / 2;
                        sign * ((k % 13) as f64 / 8.0 + (k / 3_300 % 5) as f64)
                    })
                    .unwrap();
                let mut was = false;
                for g in 0..if thorough { 140_000 } else { 106_000 } {
                    // (criteria that say something about the distribution are reported as well)
                    let is = es.next().map_or(false, |r| r.reasons.contains(&cmaes::TerminationReason::TolStagnation));
                    if is != was {
                        out.push(format!("cap {} step {} {} {}", min, g, is, es.generation()));
                        was = is;
                    }
                }
                out.push(format!("cap {} {}", min, state(&es)));
            }
        }
        "print" => {
            for gap in [0usize, 1, 7, 30] {
                for k in 0..7 {
                    let mut es = CMAESOptions::new(vec![0.4; 3], 0.7)
                        .seed(gap as u64)
                        .enable_printing(gap)
                        .max_generations(gens)
                        .build(|x: &DVector<f64>| landscape(k, x))
                        .unwrap();
                    let r = es.run();
                    out.push(format!("print gap {} landscape {} {} {:?}", gap, k, state(&es), r.reasons));
                    es.print_info();
                    es.print_final_info(&r.reasons);
                }
            }
        }
        "restarts" => {
            for n in [1usize, 2, 4] {
                for k in 0..7 {
                    for s in 0..3 {
                        for par in [false, true] {
                            let strat = match s {
                                0 => RestartStrategy::Local(Local::new(4, None).unwrap()),
                                1 => RestartStrategy::IPOP(IPOP::default()),
                                _ => RestartStrategy::BIPOP(BIPOP::default()),
                            };
                            let r = RestartOptions::new(n, -1.0..=2.0, strat)
                                .seed(k as u64)
                                .mode(if s == k % 3 { Mode::Maximize } else { Mode::Minimize })
                                .max_function_evals(if thorough { 6000 } else { 1500 })
                                .max_generations_per_run(40)
                                .enable_printing(true)
                                .build()
                                .unwrap();
                            let r = if par { r.run_parallel(|| |x: &DVector<f64>| landscape(k, x)) } else { r.run(|| |x: &DVector<f64>| landscape(k, x)) };
                            out.push(format!("restart n={} landscape {} strategy {} {:?} {} {} {:?}", n, k, s, r.best.map(|b| (b.value.to_bits(), b.point)), r.function_evals, r.runs, r.reason));
                        }
                    }
                }
            }
        }
        "wrappers" => {
            for n in [1usize, 2, 5] {
                for k in 0..7 {
                    let o = CMAESOptions::new(vec![0.4; n], 0.7).seed(k as u64).max_generations(gens);
                    let mut es = o.build(Scale::new(|x: &DVector<f64>| landscape(k, x), vec![2.0; n])).unwrap();
                    let r = es.run();
                    out.push(format!("scale n={} landscape {} {} {:?}", n, k, state(&es), r.reasons));
                    if k < 3 {
                        // the seed is chosen at random: only the outcome is comparable
                        let a = fmin(|x: &DVector<f64>| landscape(0, x), vec![0.1; n], 0.1);
                        let b = fmax(|x: &DVector<f64>| -landscape(0, x), vec![0.1; n], 0.1);
                        out.push(format!("functions n={} {} {}", n, a.value < 1e-6, b.value > -1e-6));
                    }
                }
            }
        }
        g => {
            let n: usize = g[2..].parse().unwrap();
            for k in 0..7 {
                for w in WS {
                    for mode in [Mode::Minimize, Mode::Maximize] {
                        for lambda in [2usize, 5, 9] {
                            for var in 0..4 {
                                let o = CMAESOptions::new(vec![0.4; n], 0.7).population_size(lambda).seed(lambda as u64 * 7 + k as u64).weights(w).mode(mode);
                                let o = match var {
                                    1 => o.constraints(Box::new(Bounds { lower: vec![-1.0; n], upper: vec![1.0; n] })),
                                    _ => o,
                                };
                                steps(&mut out, format!("n={} landscape {} {:?} {:?} lambda={} variant {}", n, k, w, mode, lambda, var), o, |x| landscape(k, x), gens, var == 2, var == 3);
                            }
                        }
                    }
                }
            }
        }
    }
    out
}
