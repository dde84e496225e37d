//! P38: what the restarter prints. Every line is compared with the evaluations recorded meanwhile; the length of the output
//! at every evaluation shows when each line was printed.

use super::equiv::rset;
use super::parallel::pool;
use super::print::shows;
use super::restart::*;
use crate::rt::*;
use crate::sim::*;
use cmaes::{DVector, Mode};
use serde_json::json;
use std::sync::{Arc, Mutex};

fn printed_so_far() -> u64 {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        libc::fstat(1, &mut st);
        st.st_size as u64
    }
}

type Marks = Arc<Mutex<Vec<u64>>>;

/// The policy, recording how much had been printed at each evaluation
fn marked(mut pol: RPol) -> (RPol, Marks) {
    let m: Marks = Arc::new(Mutex::new(vec![]));
    let m2 = m.clone();
    (
        Box::new(move |q| {
            m2.lock().unwrap().push(printed_so_far());
            pol(q)
        }),
        m,
    )
}

/// The header as documented: strategy, dimension, search range, the strategy's parameters and the seed
fn header_ok(cfg: &RCfg, seed: u64, h: &str) -> bool {
    let (a, b) = if cfg.range.0 <= cfg.range.1 { cfg.range } else { (cfg.range.1, cfg.range.0) };
    let params: Vec<f64> = match cfg.strat {
        Strat::Local(_, f) => vec![f.unwrap_or(0.5)],
        Strat::Ipop(k) => vec![k as f64],
        Strat::IpopDefault => vec![2.0],
        Strat::Bipop(f, k) => vec![f.unwrap_or(0.2), k.unwrap_or(2) as f64],
        Strat::BipopDefault => vec![0.2, 2.0],
    };
    let Some(rest) = h.strip_prefix(&format!("{} with dimension={}, search_range=[{}, {}], ", cfg.strat.name(), cfg.n, a, b)) else { return false };
    let Some(rest) = rest.strip_suffix(&format!(", seed={}", seed)) else { return false };
    let got: Vec<Option<f64>> = rest.split(", ").map(|p| p.split_once('=').and_then(|(k, v)| if k.is_empty() { None } else { v.parse().ok() })).collect();
    got == params.into_iter().map(Some).collect::<Vec<_>>()
}

fn vector(t: &str) -> Vec<f64> {
    t.lines().filter_map(|l| l.trim().strip_prefix('│')?.strip_suffix('│')?.trim().parse().ok()).collect()
}

fn check(ctx: &mut Ctx, cfg: &RCfg, entry: Entry, o: &Out, marks: &[u64], what: &str) {
    let bad = |ctx: &mut Ctx, k: &str, d: String| ctx.viol(k, format!("{}: {} ({:?}, {:?})", what, d, entry, cfg));
    let nested = cfg.defaults.as_ref().map_or(false, |d| d.print.is_some());
    if !header_ok(cfg, o.seed, &o.header) {
        bad(ctx, "header", format!("prints {:?}, the seed is {}", o.header, o.seed));
    }
    if o.text.matches(cfg.strat.name()).count() != 1 {
        bad(ctx, "header", format!("the header is printed {} times", o.text.matches(cfg.strat.name()).count()));
    }
    if o.info.len() != o.res.runs || o.runs.len() < o.info.len() {
        bad(ctx, "runs", format!("prints {} runs, reports {} and made {}", o.info.len(), o.res.runs, o.runs.len()));
        return;
    }
    // offsets of the lines
    let mut pos: Vec<(u64, u64)> = vec![];
    let mut off = 0u64;
    let mut lines = vec![];
    for l in o.text.split_inclusive('\n') {
        let t = l.trim_end_matches('\n');
        lines.push(t.to_string());
        off += l.len() as u64;
        if t.starts_with("Run ") && t.contains(" parameters:") {
            pos.push((off, u64::MAX));
        } else if t.starts_with("Run ") && t.contains(" results:") {
            if let Some(p) = pos.last_mut() {
                p.1 = off;
            }
        }
    }
    if !nested {
        let want = 1 + 2 * o.info.len() + o.tail.lines().count();
        if lines.len() != want {
            bad(ctx, "extra-lines", format!("prints {} lines, expected {}: {:?}", lines.len(), want, lines));
        }
    } else {
        // the header of each run stands in the same block and names the same run
        let hs: Vec<(usize, u64)> = lines.iter().filter(|l| l.contains("CMA-ES with dimension=") && l.contains("lambda=")).filter_map(|l| {
            let f = |k: &str| -> Option<&str> { l.split(k).nth(1)?.split(',').next() };
            Some((f("lambda=")?.trim().parse().ok()?, f("seed=")?.trim().parse().ok()?))
        }).collect();
        let want: Vec<(usize, u64)> = o.info.iter().map(|i| (i.lambda, i.seed)).collect();
        if hs != want {
            bad(ctx, "run-header", format!("the runs' headers name {:?}, the restarter's lines {:?}", hs, want));
        }
    }
    let mut at = 0;
    for (k, (i, calls)) in o.info.iter().zip(&o.runs).enumerate() {
        if i.evals != calls.len() {
            bad(ctx, "run-evals", format!("run {} prints {} evaluations, made {}", k + 1, i.evals, calls.len()));
        }
        let m = &marks[at.min(marks.len())..(at + calls.len()).min(marks.len())];
        at += calls.len();
        if let (Some(p), Some(first), Some(last)) = (pos.get(k), m.first(), m.last()) {
            if *first < p.0 || *last >= p.1 {
                bad(ctx, "print-order", format!("run {}: its parameters and results are printed up to {:?}, its evaluations happen at {} to {}", k + 1, p, first, last));
            }
        }
        // best of the run's completed generations
        let mut best: Option<f64> = None;
        for g in calls.chunks(i.lambda.max(1)) {
            if g.len() == i.lambda && g.iter().all(|c| !c.f.is_nan()) {
                for c in g {
                    if best.map_or(true, |b| better(cfg.is_max(), c.f, b)) {
                        best = Some(c.f);
                    }
                }
            }
        }
        let ok = match (best, i.best.parse::<f64>()) {
            (None, Err(_)) => i.best == "None",
            (Some(b), Ok(p)) => shows(p, b, 1e-10),
            _ => false,
        };
        if !ok {
            bad(ctx, "run-best", format!("run {} prints the best value {:?}, it is {:?}", k + 1, i.best, best));
        }
        if i.reasons.is_empty() || i.reasons.windows(2).any(|w| w[0] == w[1]) {
            bad(ctx, "run-reasons", format!("run {} prints the reasons {:?}", k + 1, i.reasons));
        }
        let nan = calls.iter().any(|c| c.f.is_nan());
        if nan != i.reasons.iter().any(|r| r == "InvalidFunctionValue") || (nan && i.reasons.len() != 1) {
            bad(ctx, "run-reasons", format!("run {} prints the reasons {:?}, invalid values: {}", k + 1, i.reasons, nan));
        }
        // population, step size and seed printed are those used
        let unbounded = cfg.defaults.as_ref().map_or(true, |d| d.constraints.is_none());
        if unbounded && calls.len() >= i.lambda {
            match recover(cfg.n, i, calls) {
                Ok((_, s)) => {
                    if !shows(i.sigma0, s, 1e-4) {
                        bad(ctx, "run-sigma", format!("run {} prints the step size {:e}, used {:e}", k + 1, i.sigma0, s));
                    }
                }
                Err(e) => bad(ctx, "run-seed", format!("run {} with printed population {} and seed {}: {}", k + 1, i.lambda, i.seed, e)),
            }
        }
    }
    // the summary
    let mut t = o.tail.lines();
    let want = format!("Terminated in {} f-evals with reason: `{:?}`", o.total, o.res.reason);
    if t.next() != Some(want.as_str()) {
        bad(ctx, "summary", format!("prints {:?}, expected {:?}", o.tail.lines().next(), want));
    }
    match &o.res.best {
        None => {
            if t.next().is_some() {
                bad(ctx, "summary", format!("prints {:?} without a best individual", o.tail));
            }
        }
        Some(b) => {
            let v = t.next().and_then(|l| l.strip_prefix("Best function value: ")).and_then(|v| v.parse::<f64>().ok());
            if v.map(f64::to_bits) != Some(b.value.to_bits()) {
                bad(ctx, "summary-best", format!("prints {:?}, the best value is {:e}", o.tail, b.value));
            }
            let x = vector(&o.tail);
            if !bits(&x, b.point.as_slice()) || o.tail.matches("Best point:").count() != 1 {
                bad(ctx, "summary-point", format!("prints {:?}, the best point is {:?}", o.tail, b.point.as_slice()));
            }
        }
    }
}

fn strategies() -> Vec<Strat> {
    vec![Strat::Local(0, None), Strat::Local(1, Some(1.5)), Strat::Local(4, None), Strat::IpopDefault, Strat::Ipop(3), Strat::Ipop(1), Strat::BipopDefault, Strat::Bipop(Some(0.125), Some(1)), Strat::Bipop(None, Some(3))]
}

fn one(ctx: &mut Ctx, c: &RCfg, e: Entry, pol: RPol, what: &str) {
    let (pol, marks) = marked(pol);
    match pool(1).install(|| go(c, e, pol)) {
        Ok(o) => {
            check(ctx, c, e, &o, &marks.lock().unwrap(), what);
            fp_out(ctx, &o);
        }
        Err(er) => ctx.viol("output", format!("{}: {} ({:?}, {:?})", what, er, e, c)),
    }
}

/// Prints nothing with printing disabled
fn silent(ctx: &mut Ctx, c: &RCfg, pol: RPol, what: &str) {
    let Ok(r) = c.options(false).build() else { return };
    let mut pol = pol;
    let (_, text) = capture(|| {
        let mut n = 0;
        r.run_with_reuse(|x: &DVector<f64>| {
            n += 1;
            pol(&RQ { run: 0, idx: n - 1, total: n - 1, x: x.as_slice() })
        })
    });
    ctx.trace();
    if !text.is_empty() {
        ctx.viol("silent", format!("{}: prints {:?} although printing is disabled ({:?})", what, text, c));
    }
}

pub fn p38(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    let scale = [1.0f64, 1e-300, 1e300, f64::INFINITY];
    for s in strategies() {
        for e in ENTRIES {
            // all words of run outcomes: quiet end, constant values, target, invalid value at once, invalid value later
            js.push(job(format!("outcomes {:?} {:?}", s, e), move |ctx| {
                let depth = ctx.tier.pick(3, 5);
                for (wi, w) in sequences(5, depth).into_iter().enumerate() {
                    let end = w.iter().position(|o| *o >= 2).unwrap_or(depth);
                    if w[(end + 1).min(depth)..].iter().any(|o| *o != 0) {
                        continue;
                    }
                    for mode in MODES {
                        let mut c = RCfg::new(s, 1 + wi % 3);
                        c.mode = Some(mode);
                        c.run_gens = Some(6);
                        c.max_evals = Some(600);
                        c.seed = if wi % 4 == 3 { None } else { Some(wi as u64 * 77) };
                        c.range = [(-2.0, 3.0), (0.0, 1e-3), (-1e6, -1e5), (7.0, -7.25)][wi % 4];
                        let sg = if c.is_max() { 1.0 } else { -1.0 };
                        c.target = Some(sg * 5.0);
                        let lam = c.lambda0();
                        let w2 = w.clone();
                        let f = scale[wi % 4];
                        let pol: RPol = Box::new(move |q| {
                            let g = q.idx / lam;
                            match w2.get(q.run).copied().unwrap_or(0) {
                                1 => 0.25,
                                2 if g == 2 && q.idx % lam == 1 => sg * 5.0,
                                3 if q.idx == lam - 1 => f64::NAN,
                                4 if g == 2 && q.idx % lam == 0 => f64::NAN,
                                _ => {
                                    // negated for a target that is not reached by large values
                                    let v = -sg * (hash01(3, q.total as u64) + 1e-3) * f;
                                    if v.is_nan() { 0.0 } else { v }
                                }
                            }
                        });
                        one(ctx, &c, e, pol, &format!("outcomes {:?}", w));
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
        // budgets, zero ones included, and runs that print as well
        js.push(job(format!("budgets {:?}", s), move |ctx| {
            for n in [1usize, 4] {
                for me in [None, Some(0usize), Some(1), Some(25), Some(300)] {
                    for gens in [1usize, 2, 9] {
                        for print in [None, Some(0usize), Some(10)] {
                            for e in ENTRIES {
                                let mut c = RCfg::new(s, n);
                                c.max_evals = me;
                                c.run_gens = Some(gens);
                                if matches!(s, Strat::Ipop(3)) && me.is_none() {
                                    continue;
                                }
                                if print.is_some() {
                                    let mut d = Cfg::new(vec![0.0; n], 1.0);
                                    d.seed = None;
                                    d.print = print;
                                    c.defaults = Some(d);
                                }
                                if me.is_none() {
                                    c.max_evals = Some(4000);
                                }
                                one(ctx, &c, e, Box::new(|q| q.x.iter().map(|v| v * v).sum()), "budgets");
                                if print.is_none() {
                                    silent(ctx, &c, Box::new(|q| q.x.iter().map(|v| v * v).sum()), "budgets");
                                }
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            ctx.sample(|| json!({"strategy": format!("{:?}", s)}));
        }));
        // the reasons of a run with scripted values are those of the same run made directly
        if matches!(s, Strat::Local(..) | Strat::Ipop(_) | Strat::IpopDefault) {
            js.push(job(format!("reasons {:?}", s), move |ctx| {
                for kind in 0..5usize {
                    for n in [1usize, 2] {
                        for mode in MODES {
                            for seed in 0..ctx.tier.pick(3u64, 20) {
                                let mut c = RCfg::new(s, n);
                                c.mode = Some(mode);
                                c.seed = Some(seed);
                                c.max_evals = Some(3000);
                                c.run_gens = Some([400, 20, 45, 30, 1][kind]);
                                let sg = if c.is_max() { 1.0 } else { -1.0 };
                                c.target = Some(sg * 2.0);
                                let val = move |idx: usize| -> f64 {
                                    match kind {
                                        0 => 0.5,
                                        1 => -sg * hash01(1, idx as u64),
                                        2 => if idx == 211 { sg * 2.0 } else { 1e-14 * hash01(2, idx as u64) },
                                        3 => if idx == 97 { f64::NAN } else { 1.0 },
                                        _ => idx as f64 * -sg,
                                    }
                                };
                                let (pol, marks) = marked(Box::new(move |q| val(q.idx)));
                                let o = match go(&c, Entry::Run, pol) {
                                    Ok(o) => o,
                                    Err(er) => return ctx.viol("output", er),
                                };
                                let what = format!("reasons {}", kind);
                                check(ctx, &c, Entry::Run, &o, &marks.lock().unwrap(), &what);
                                for (k, (i, calls)) in o.info.iter().zip(&o.runs).enumerate() {
                                    let Ok((m, sigma)) = recover(n, i, calls) else { continue };
                                    let mut d = Cfg::new(m, sigma).lam(i.lambda).seed(i.seed).mode(mode);
                                    d.max_gens = c.run_gens;
                                    d.fun_target = c.target;
                                    let mut r = Run::new(&d, Box::new({
                                        let mut at = 0;
                                        move |_| {
                                            at += 1;
                                            val(at - 1)
                                        }
                                    }));
                                    let td = r.es.run();
                                    let want = rset(&Some(td));
                                    if want != i.reasons || r.es.function_evals() != i.evals {
                                        ctx.viol("reasons", format!("{}: run {} prints the reasons {:?} after {} evaluations, the same run made directly ends after {} with {:?} ({:?})", what, k + 1, i.reasons, i.evals, r.es.function_evals(), want, c));
                                    }
                                    ctx.count("runs_repeated_directly", 1);
                                }
                                fp_out(ctx, &o);
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    let _ = (tier, Mode::Minimize);
    js
}
