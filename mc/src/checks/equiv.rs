//! P16 duality, P17 invariances, P18 reproducibility and transparent observation.

use crate::checks::core::{cfg_fp, fp_step, words};
use crate::rt::*;
use crate::sim::*;
use cmaes::{Bounds, CMAESOptions, DVector, Mode, PlotOptions};
use serde_json::json;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

pub fn rset(o: &Option<TD>) -> Vec<String> {
    let mut v: Vec<String> = reasons(o).iter().map(|r| format!("{:?}", r)).collect();
    v.sort();
    v
}

fn neg(o: &Option<(Vec<f64>, f64)>) -> Option<(Vec<f64>, f64)> {
    o.as_ref().map(|(x, f)| (x.clone(), -f))
}

fn dual_cfg(cfg: &Cfg) -> Cfg {
    let mut c = cfg.clone();
    c.mode = Some(if cfg.is_max() { Mode::Minimize } else { Mode::Maximize });
    c.fun_target = cfg.fun_target.map(|t| -t);
    c
}

fn dual_pol(mut p: Pol) -> Pol {
    Box::new(move |q| -p(q))
}

fn dual_walk(ctx: &mut Ctx, cfg: &Cfg, mk: &dyn Fn() -> Pol, steps: usize, past: bool, what: &str) {
    let id = cfg_fp(cfg);
    let mut a = Run::new(cfg, mk());
    let mut b = Run::new(&dual_cfg(cfg), dual_pol(mk()));
    for g in 0..steps {
        let sa = a.next();
        let sb = b.next();
        fp_step(ctx, id, &sa);
        let w = || format!("{} seed {:?} step {}", what, cfg.seed, g);
        if sa.calls.len() != sb.calls.len() || !sa.calls.iter().zip(&sb.calls).all(|(x, y)| bits(&x.x, &y.x)) {
            ctx.viol("dual-points", format!("{}: minimisation and maximisation evaluate different points", w()));
            return;
        }
        if !sa.after.same_dist(&sb.after) {
            ctx.viol("dual-distribution", format!("{}: distributions differ: {:?} / {:?}", w(), sa.after, sb.after));
            return;
        }
        let eq = |p: &Option<(Vec<f64>, f64)>, q: &Option<(Vec<f64>, f64)>| match (p, &neg(q)) {
            (None, None) => true,
            (Some(p), Some(q)) => bits(&p.0, &q.0) && p.1 == q.1,
            _ => false,
        };
        if !eq(&sa.after.cur, &sb.after.cur) || !eq(&sa.after.best, &sb.after.best) || sa.after.evals != sb.after.evals {
            ctx.viol("dual-bests", format!("{}: bests are not the negated ones: {:?} {:?} / {:?} {:?}", w(), sa.after.cur, sa.after.best, sb.after.cur, sb.after.best));
            return;
        }
        if rset(&sa.out) != rset(&sb.out) {
            ctx.viol("dual-reasons", format!("{}: reasons differ: {:?} / {:?}", w(), reasons(&sa.out), reasons(&sb.out)));
            return;
        }
        if sa.out.is_some() && !past {
            break;
        }
        if !sa.after.finite() {
            break;
        }
    }
    ctx.trace();
}

/// Option sets under which the criteria really fire
fn firing(n: usize, lambda: usize, k: usize) -> Cfg {
    let mut c = Cfg::quiet(n, lambda);
    match k {
        0 => {}
        1 => {
            c.tol_fun = Some(1.5);
            c.tol_fun_hist = Some(1.2);
        }
        2 => c.tol_fun_rel = Some(0.3),
        3 => c.tol_stag = Some(2),
        4 => {
            c.fun_target = Some(0.5);
            c.max_evals = Some(9 * lambda);
        }
        5 => {
            c.tol_x = Some(0.5);
            c.tol_x_up = Some(2.0);
            c.tol_cond = Some(4.0);
        }
        6 => {
            c = Cfg::new(vec![0.25; n], 0.5);
            c.lambda = Some(lambda);
        }
        _ => {
            c.tol_fun_rel = Some(1e-2);
            c.tol_fun_hist = Some(1e-3);
            c.tol_stag = Some(3);
            c.fun_target = Some(-1.0);
        }
    }
    c
}

pub fn p16(tier: Tier) -> Vec<Job> {
    let inf = f64::INFINITY;
    let mut js = vec![];
    // a) all words
    let menus: Vec<(usize, Vec<f64>, usize)> = vec![
        (2, vec![-inf, -1.0, -0.0, 0.0, 1.0, inf, f64::MAX, f64::NAN], 2),
        (3, vec![-1.0, -0.0, 0.0, 1.0, inf], 2),
        (4, vec![0.0, 1.0, -1.0], 2),
        (5, vec![0.0, 1.0], 2),
    ];
    for (mi, (lambda, alpha, depth)) in menus.into_iter().enumerate() {
        for k in 0..8 {
            let alpha = alpha.clone();
            js.push(job(format!("words menu={} options={}", mi, k), move |ctx| {
                let ws = words(&alpha, lambda);
                let n = ws.len();
                let total = n.pow(depth as u32);
                let stride = if ctx.tier == Tier::Quick { (total / 2500).max(1) | 1 } else { 1 };
                let mut i = 0;
                while i < total {
                    let cfg = firing(1 + i % 3, lambda, k).w(WS[i % 3]).seed((i % 7) as u64);
                    let seq = vec![ws[i % n].clone(), ws[i / n % n].clone()];
                    let what = format!("answers {:?} options {}", seq, k);
                    ctx.sample(|| json!(what));
                    dual_walk(ctx, &cfg, &|| wpol(seq.clone()), depth, true, &what);
                    if ctx.full() {
                        return;
                    }
                    i += stride;
                }
            }));
        }
    }
    // b) landscapes and level histories on a lattice with criteria that fire
    let kinds = all_kinds();
    for n in [1usize, 2, 3, 5, 8] {
        for lambda in [2usize, 4, 7, 12, 31] {
            for k in 0..8 {
                let kinds = kinds.clone();
                js.push(job(format!("landscapes n={} lambda={} options={}", n, lambda, k), move |ctx| {
                    for kind in &kinds {
                        for w in WS {
                            for seed in 0..ctx.tier.pick(2u64, 12) {
                                let cfg = firing(n, lambda, k).w(w).seed(seed);
                                let what = format!("{:?} n={} lambda={} w={} options {}", kind, n, lambda, wname(w), k);
                                let steps = ctx.tier.pick(60, 200);
                                dual_walk(ctx, &cfg, &|| kpol(*kind), steps, k != 6, &what);
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }));
            }
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                for o in 0..8 {
                    if (o + ki) % 2 == 1 && gens > 200 && ctx.tier == Tier::Quick {
                        continue;
                    }
                    let cfg = firing(n, lambda, o).w(WS[(ki + n + o) % 3]).seed((ki + o) as u64);
                    dual_walk(ctx, &cfg, &|| nan_pol(k), gens, true, &format!("wide {:?} n={} lambda={} options {}", k, n, lambda, o));
                    if ctx.full() {
                        return;
                    }
                }
            }));
        }
    }
    // c) per-generation level sequences (flatness, stagnation): all sequences of block levels
    for lambda in [2usize, 3, 6] {
        for k in [1usize, 2, 3, 7] {
            js.push(job(format!("levels lambda={} options={}", lambda, k), move |ctx| {
                let nb = ctx.tier.pick(5, 7);
                for s in sequences(3, nb) {
                    for len in [3usize, 8] {
                        let cfg = firing(2, lambda, k);
                        let s2 = s.clone();
                        let mk = move || -> Pol {
                            let s = s2.clone();
                            Box::new(move |q| {
                                let l = s[(q.step / len) % s.len()] as f64;
                                l + 0.01 * (q.idx as f64) - 0.001 * ((q.step % 3) as f64)
                            })
                        };
                        dual_walk(ctx, &cfg, &mk, len * nb, true, &format!("levels {:?} block {} options {}", s, len, k));
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // levels of both signs held for longer than the flatness window: every triple
    for (n, lambda) in [(1usize, 4usize), (2, 6), (2, 30)] {
        js.push(job(format!("signs n={} lambda={}", n, lambda), move |ctx| {
            let ls = [-8.0, -1.0, -0.3, 0.0, 0.3, 1.0, 8.0];
            let window = 10 + (30 * n).div_ceil(lambda);
            for a in ls {
                for b in ls {
                    for c in ls {
                        for (tol, amp) in [(0.01, 1e-3), (0.3, 0.1), (0.05, 0.1)] {
                            let mut cfg = Cfg::quiet(n, lambda).seed(3);
                            cfg.tol_fun_rel = Some(tol);
                            let mk = move || -> Pol {
                                Box::new(move |q| {
                                    let l = [a, b, c][(q.step / 2).min(2)];
                                    l + amp * hash01(q.step as u64, q.idx as u64)
                                })
                            };
                            dual_walk(ctx, &cfg, &mk, window + 7, true, &format!("levels {} {} {} amplitude {} relative tolerance {}", a, b, c, amp, tol));
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }
        }));
    }
    // d) whole runs, sequential and parallel
    for n in [1usize, 2, 4, 10] {
        for par in [false, true] {
            js.push(job(format!("runs n={} par={}", n, par), move |ctx| {
                for kind in [Kind::Sphere, Kind::Elli(4.0), Kind::Rosen, Kind::Rastrigin, Kind::Const(1.0), Kind::Lin(0, false), Kind::Infs(3), Kind::Cigar] {
                    // answers by order of evaluation mean nothing in parallel
                    if par && kind == Kind::Infs(3) {
                        continue;
                    }
                    for seed in 0..ctx.tier.pick(3u64, 20) {
                        let mut cfg = Cfg::new(vec![0.6; n], 0.4).seed(seed);
                        cfg.max_gens = Some(ctx.tier.pick(400, 3000));
                        let mut a = Run::new(&cfg, kpol(kind)).auto();
                        let mut b = Run::new(&dual_cfg(&cfg), dual_pol(kpol(kind))).auto();
                        let (ta, tb) = if par { (a.es.run_parallel(), b.es.run_parallel()) } else { (a.es.run(), b.es.run()) };
                        let (sa, sb) = (Snap::of(&a.es), Snap::of(&b.es));
                        ctx.trans(sa.gen as u64);
                        ctx.trace();
                        let same = |x: &Option<cmaes::Individual>, y: &Option<cmaes::Individual>| match (x, y) {
                            (Some(x), Some(y)) => x.point == y.point && x.value == -y.value,
                            (None, None) => true,
                            _ => false,
                        };
                        let oa = rset(&Some(ta.clone()));
                        let ob = rset(&Some(tb.clone()));
                        if oa != ob || !sa.same_dist(&sb) || sa.evals != sb.evals || !same(&ta.overall_best, &tb.overall_best) || !same(&ta.current_best, &tb.current_best) || ta.final_mean != tb.final_mean {
                            ctx.viol("dual-run", format!("{:?} n={} seed {}: runs differ: {:?} / {:?}", kind, n, seed, ta, tb));
                            return;
                        }
                    }
                }
            }));
        }
    }
    let _ = tier;
    js
}

// ---------------------------------------------------------------------------------------------

fn ordered(x: f64) -> i64 {
    let b = x.to_bits() as i64;
    if b < 0 {
        i64::MIN.wrapping_sub(b)
    } else {
        b
    }
}

fn unordered(k: i64) -> f64 {
    if k >= 0 {
        f64::from_bits(k as u64)
    } else {
        f64::from_bits((i64::MIN.wrapping_sub(k)) as u64)
    }
}

const TRANSFORMS: [&str; 6] = ["times 2^40", "times 2^-40", "cube", "ordinal shift up", "ordinal shift down", "times 3"];

fn transform(k: usize, x: f64) -> f64 {
    if !x.is_finite() {
        return x;
    }
    match k {
        0 => x * 2f64.powi(40),
        1 => x * 2f64.powi(-40),
        2 => x * x * x,
        3 => unordered(ordered(x) + (1 << 53)),
        4 => unordered(ordered(x) - (3 << 51)),
        _ => x * 3.0,
    }
}

/// Reasons that do not depend on values
fn dist_reasons(o: &Option<TD>) -> Vec<String> {
    let mut v: Vec<String> = reasons(o)
        .iter()
        .filter(|r| {
            !matches!(
                r,
                TR::FunTarget | TR::TolFun | TR::TolFunRel | TR::TolFunHist | TR::TolStagnation
            )
        })
        .map(|r| format!("{:?}", r))
        .collect();
    v.sort();
    v
}

/// Steps two runs; points of b scaled by `f` (power of two), everything else equal bit for bit. `ordered` says whether the
/// answers of a generation were ranked alike (else the walk ends without a verdict)
fn scale_walk(ctx: &mut Ctx, a: &mut Run, b: &mut Run, cfg: &Cfg, steps: usize, f: f64, what: &str) {
    let id = cfg_fp(cfg);
    for g in 0..steps {
        let sa = a.next();
        let sb = b.next();
        fp_step(ctx, id, &sa);
        let rank = |s: &Step| {
            let c = &s.calls;
            let mut r = vec![];
            for i in 0..c.len() {
                for j in 0..i {
                    r.push(c[i].f.partial_cmp(&c[j].f));
                }
                if let Some(b) = &s.before.best {
                    r.push(c[i].f.partial_cmp(&b.1));
                }
            }
            r
        };
        let sc = |x: &[f64]| x.iter().map(|v| v * f).collect::<Vec<f64>>();
        if sa.calls.len() != sb.calls.len() || !sa.calls.iter().zip(&sb.calls).all(|(x, y)| bits(&sc(&x.x), &y.x)) {
            ctx.viol("points-differ", format!("{} seed {:?} step {}: evaluated points differ", what, cfg.seed, g));
            return;
        }
        if rank(&sa) != rank(&sb) {
            ctx.count("rankings_not_preserved_by_rounding", 1);
            return;
        }
        let same = bits(&sc(&sa.after.mean), &sb.after.mean)
            && (sa.after.sigma * f).to_bits() == sb.after.sigma.to_bits()
            && bits(&sa.after.cov.a, &sb.after.cov.a)
            && bits(&sa.after.eig, &sb.after.eig)
            && sa.after.axis.to_bits() == sb.after.axis.to_bits()
            && sa.after.gen == sb.after.gen;
        if !same {
            ctx.viol("distributions-differ", format!("{} seed {:?} step {}: {:?} / {:?}", what, cfg.seed, g, sa.after, sb.after));
            return;
        }
        if dist_reasons(&sa.out) != dist_reasons(&sb.out) {
            ctx.viol("reasons-differ", format!("{} seed {:?} step {}: {:?} / {:?}", what, cfg.seed, g, reasons(&sa.out), reasons(&sb.out)));
            return;
        }
        let which = |s: &Step, b: &Option<(Vec<f64>, f64)>| b.as_ref().map(|b| s.calls.iter().position(|c| bits(&c.x, &b.0)));
        if which(&sa, &sa.after.cur) != which(&sb, &sb.after.cur) || which(&sa, &sa.after.best) != which(&sb, &sb.after.best) {
            ctx.viol("bests-differ", format!("{} seed {:?} step {}: different points are the best ones", what, cfg.seed, g));
            return;
        }
        let tiny = |s: &Snap| s.sigma < 1e-250 || s.sigma > 1e250 || s.mean.iter().any(|m| *m != 0.0 && (m.abs() < 1e-250 || m.abs() > 1e250));
        if !sa.after.finite() || tiny(&sa.after) || tiny(&sb.after) {
            break;
        }
    }
    ctx.trace();
}

pub fn p17(tier: Tier) -> Vec<Job> {
    let inf = f64::INFINITY;
    let mut js = vec![];
    // a) level words under several increasing assignments of values to levels
    for (lambda, depth) in [(2usize, 3usize), (3, 2), (4, 2), (5, 1), (6, 1)] {
        for n in [1usize, 2, 3] {
            for w in WS {
                js.push(job(format!("levels lambda={} n={} w={}", lambda, n, wname(w)), move |ctx| {
                    let assign: Vec<Vec<f64>> = vec![
                        vec![0.0, 1.0, 2.0, 3.0, 4.0, 5.0],
                        vec![-inf, -1e300, -0.0, 5e-324, 1e300, inf],
                        vec![1.0, 1.0 + f64::EPSILON, 1.0 + 2.0 * f64::EPSILON, 1.0 + 3.0 * f64::EPSILON, 1.0 + 4.0 * f64::EPSILON, 1.0 + 5.0 * f64::EPSILON],
                        vec![f64::MIN, -1.0, -5e-324, 0.0, 5e-324, f64::MAX],
                        vec![-5e5, -4e4, -3e3, -2e2, -1.0, 0.1],
                        vec![-1e-310, -1e-311, 0.0, 1e-311, 1e-310, inf],
                    ];
                    let orders = weak_orders(lambda);
                    let total = orders.len().pow(depth as u32);
                    let stride = if ctx.tier == Tier::Quick { (total / 1500).max(1) | 1 } else { (total / 60000).max(1) | 1 };
                    let mut i = 0;
                    while i < total {
                        let mut seq = vec![];
                        let mut c = i;
                        for _ in 0..depth {
                            seq.push(orders[c % orders.len()].clone());
                            c /= orders.len();
                        }
                        i += stride;
                        for mode in MODES {
                            let cfg = Cfg::quiet(n, lambda).w(w).mode(mode).seed((i % 11) as u64);
                            for (ai, a) in assign.iter().enumerate().skip(1) {
                                let mk = |asg: &Vec<f64>| wpol(seq.iter().map(|s| s.iter().map(|l| asg[*l]).collect()).collect());
                                let what = format!("levels {:?} values {:?} against {:?}", seq, assign[0], assign[ai]);
                                ctx.sample(|| json!(what));
                                let mut ra = Run::new(&cfg, mk(&assign[0]));
                                let mut rb = Run::new(&cfg, mk(a));
                                scale_walk(ctx, &mut ra, &mut rb, &cfg, depth + 1, 1.0, &what);
                                if ctx.full() {
                                    return;
                                }
                            }
                            // zeros of either sign are the same value: every pattern of signs by position
                            for signs in 0..4usize {
                                let zeros = wpol(
                                    seq.iter()
                                        .map(|s| s.iter().enumerate().map(|(p, l)| if *l == 0 && (p >> (signs % 2)) % 2 == signs / 2 { -0.0 } else { *l as f64 }).collect())
                                        .collect(),
                                );
                                let ones = wpol(seq.iter().map(|s| s.iter().map(|l| 1.0 + *l as f64).collect()).collect());
                                let what = format!("levels {:?}, zeros with signs {} against levels + 1", seq, signs);
                                let mut ra = Run::new(&cfg, zeros);
                                let mut rb = Run::new(&cfg, ones);
                                scale_walk(ctx, &mut ra, &mut rb, &cfg, depth + 1, 1.0, &what);
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }));
            }
        }
    }
    let lands = [Kind::Sphere, Kind::Elli(6.0), Kind::Rosen, Kind::Rastrigin, Kind::Cigar, Kind::Lin(0, true), Kind::Ties(1, 3), Kind::Hash(4), Kind::Infs(2), Kind::AntiSphere];
    // b) transformed landscapes
    for n in [1usize, 2, 5, 10] {
        for (ti, tn) in TRANSFORMS.iter().enumerate() {
            js.push(job(format!("transformed n={} transform={}", n, tn), move |ctx| {
                for kind in lands {
                    for w in WS {
                        for mode in MODES {
                            for seed in 0..ctx.tier.pick(2u64, 15) {
                                let cfg = Cfg::quiet(n, 4 + 2 * n).w(w).mode(mode).seed(seed).at(vec![0.3; n], 0.5);
                                let mut a = Run::new(&cfg, kpol(kind));
                                let mut b = Run::new(&cfg, Box::new(move |q| transform(ti, kind_value(kind, q))));
                                let what = format!("{:?} n={} w={} {} transformed by {}", kind, n, wname(w), mname(mode), tn);
                                scale_walk(ctx, &mut a, &mut b, &cfg, ctx.tier.pick(60, 300), 1.0, &what);
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                let cfg = Cfg::quiet(n, lambda).w(WS[(ki + n) % 3]).mode(MODES[ki % 2]).seed(ki as u64).at(vec![0.3; n], 0.5);
                for (ti, tn) in TRANSFORMS.iter().enumerate() {
                    let mut a = Run::new(&cfg, kpol(k));
                    let mut b = Run::new(&cfg, Box::new(move |q| transform(ti, kind_value(k, q))));
                    scale_walk(ctx, &mut a, &mut b, &cfg, gens / 2, 1.0, &format!("wide {:?} n={} lambda={} transformed by {}", k, n, lambda, tn));
                    if ctx.full() {
                        return;
                    }
                }
            }));
        }
    }
    // c) scaling space by powers of two
    for n in [1usize, 2, 5, 10] {
        for e in [-700i32, -330, -200, -60, -7, -1, 1, 3, 50, 180, 350, 700] {
            js.push(job(format!("scaled n={} 2^{}", n, e), move |ctx| {
                let f = 2f64.powi(e);
                for kind in lands {
                    for w in WS {
                        for origin in [true, false] {
                            for seed in 0..ctx.tier.pick(2u64, 15) {
                                let m = if origin { vec![0.0; n] } else { (0..n).map(|i| 0.3 - 0.7 * i as f64).collect() };
                                // default tolerances scale with the initial step size
                                let mut cfg = Cfg::new(m.clone(), 0.5).w(w).seed(seed);
                                cfg.tol_fun = Some(0.0);
                                cfg.tol_fun_hist = Some(0.0);
                                let mut cfb = cfg.clone();
                                cfb.mean = m.iter().map(|v| v * f).collect();
                                cfb.sigma = cfg.sigma * f;
                                let mut a = Run::new(&cfg, kpol(kind));
                                let mut b = Run::new(
                                    &cfb,
                                    Box::new(move |q| {
                                        let x: Vec<f64> = q.x.iter().map(|v| v / f).collect();
                                        let mm: Vec<f64> = q.mean.iter().map(|v| v / f).collect();
                                        kind_value(kind, &Q { step: q.step, idx: q.idx, x: &x, mean: &mm, sigma: q.sigma / f })
                                    }),
                                );
                                let what = format!("{:?} n={} w={} origin={} scaled by 2^{}", kind, n, wname(w), origin, e);
                                scale_walk(ctx, &mut a, &mut b, &cfg, ctx.tier.pick(80, 400), f, &what);
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    // d) shifting space: rankings scripted, points compared relative to the start
    for n in [1usize, 2, 4] {
        for lambda in [2usize, 5, 9] {
            js.push(job(format!("shifted n={} lambda={}", n, lambda), move |ctx| {
                for kind in [Kind::Index, Kind::IndexRev, Kind::Hash(1), Kind::Hash(9), Kind::Ties(4, 2), Kind::Const(0.0)] {
                    for w in WS {
                        for seed in 0..ctx.tier.pick(4u64, 30) {
                            for sh in [1.0f64, -3.5, 1024.0, 1e6] {
                                let cfg = Cfg::quiet(n, lambda).w(w).seed(seed);
                                let c: Vec<f64> = (0..n).map(|i| sh * (1.0 + 0.5 * i as f64)).collect();
                                let mut cfb = cfg.clone();
                                cfb.mean = c.clone();
                                let mut a = Run::new(&cfg, kpol(kind));
                                let mut b = Run::new(&cfb, kpol(kind));
                                let cmax = c.iter().fold(0.0f64, |m, v| m.max(v.abs()));
                                for g in 0..ctx.tier.pick(25, 60) {
                                    let sa = a.next();
                                    let sb = b.next();
                                    fp_step(ctx, cfg_fp(&cfb), &sb);
                                    let cond = sa.after.eig.iter().cloned().fold(0.0, f64::max) / sa.after.eig.iter().cloned().fold(f64::MAX, f64::min);
                                    // only where rounding of the shifted coordinates is far below the comparison
                                    let xs = sa.calls.iter().flat_map(|c| c.x.iter()).fold(1e-300f64, |m, v| m.max(v.abs()));
                                    if cond > 1e4 || cmax > 1e9 * sa.after.sigma || sa.after.sigma > 1e9 {
                                        ctx.count("steps_beyond_comparable_precision", 1);
                                        break;
                                    }
                                    let tol = 1e-13 * (cmax + xs) * (g as f64 + 10.0) + 1e-9 * xs;
                                    let ok = sa.calls.iter().zip(&sb.calls).all(|(p, q)| p.x.iter().zip(&q.x).zip(&c).all(|((u, v), c)| (v - c - u).abs() <= tol))
                                        && sa.after.mean.iter().zip(&sb.after.mean).zip(&c).all(|((u, v), c)| (v - c - u).abs() <= tol);
                                    let rel = 1e-3;
                                    let cm = crate::la::max_abs(&sa.after.cov.a);
                                    let okd = (sa.after.sigma / sb.after.sigma - 1.0).abs() < rel && sa.after.cov.a.iter().zip(&sb.after.cov.a).all(|(u, v)| (u - v).abs() <= rel * cm);
                                    if !ok || !okd || sa.calls.len() != sb.calls.len() {
                                        ctx.viol("shift", format!("{:?} n={} lambda={} w={} seed {} shift {:?} step {}: {:?} / {:?}", kind, n, lambda, wname(w), seed, c, g, sa.after, sb.after));
                                        return;
                                    }
                                }
                                ctx.trace();
                            }
                        }
                    }
                }
            }));
        }
    }
    let _ = tier;
    js
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Nothing,
    Accessors,
    Info,
    Initial,
    Final,
    PlotPoint,
    PlotClear,
    PlotSave,
    Other,
}

/// What the observed twin does between two steps
fn observe(r: &mut Run, op: Op, k: usize) {
    match op {
        Op::Nothing => {}
        Op::Accessors => {
            let es = &r.es;
            let p = es.parameters();
            let _ = (p.dim(), p.lambda(), p.mu(), p.seed(), p.mu_eff(), p.c1(), p.cc(), p.cs(), p.cmu(), p.cm(), p.damp_s(), p.weights().len());
            let _ = (es.generation(), es.function_evals(), es.mean().len(), es.sigma(), es.eigenvalues(), es.axis_ratio(), es.covariance_matrix().len());
            let _ = (es.current_best_individual().cloned(), es.overall_best_individual().cloned(), es.time_created(), es.elapsed(), es.get_plot().map(|p| (p.len(), p.capacity(), p.is_empty())));
            let _ = es.generations_per_eigen_update();
        }
        Op::Info => r.es.print_info(),
        Op::Initial => r.es.print_initial_info(),
        Op::Final => r.es.print_final_info(&[TR::TolFun]),
        Op::PlotPoint => r.es.add_plot_point(),
        Op::PlotClear => {
            if let Some(p) = r.es.get_mut_plot() {
                if !p.is_empty() {
                    p.clear();
                }
            }
        }
        Op::PlotSave => {
            if let Some(p) = r.es.get_plot() {
                p.save_to_file(scratch_dir().join(format!("p18-{}.png", k % 2)), true).expect("saving the plot");
            }
        }
        Op::Other => {
            // another optimiser lives and works in between
            let mut o = Run::new(&Cfg::quiet(2, 4).seed(3), kpol(Kind::Sphere));
            let _ = o.next();
            let _ = o.next_parallel();
        }
    }
}

fn twins_equal(ctx: &mut Ctx, sa: &Step, sb: &Step, what: &dyn Fn() -> String) -> bool {
    let calls = sa.calls.len() == sb.calls.len() && sa.calls.iter().zip(&sb.calls).all(|(x, y)| bits(&x.x, &y.x) && x.f.to_bits() == y.f.to_bits());
    if !calls {
        ctx.viol("twin-points", format!("{}: twins evaluate different points", what()));
        return false;
    }
    if !sa.after.same(&sb.after) {
        ctx.viol("twin-state", format!("{}: {:?} / {:?}", what(), sa.after, sb.after));
        return false;
    }
    if rset(&sa.out) != rset(&sb.out) {
        ctx.viol("twin-reasons", format!("{}: {:?} / {:?}", what(), reasons(&sa.out), reasons(&sb.out)));
        return false;
    }
    let td = match (&sa.out, &sb.out) {
        (Some(x), Some(y)) => x.final_mean == y.final_mean || x.final_mean.iter().any(|v| v.is_nan()),
        (None, None) => true,
        _ => false,
    };
    if !td {
        ctx.viol("twin-result", format!("{}: results differ", what()));
    }
    td
}

fn observed_walk(ctx: &mut Ctx, plain: &Cfg, observed: &Cfg, mk: &dyn Fn() -> Pol, ops: &[Op], steps: usize, what: &str) {
    let id = cfg_fp(observed);
    let mut a = Run::new(plain, mk());
    let (mut b, _) = capture(|| Run::new(observed, mk()));
    // the sequence is repeated
    for g in 0..steps {
        let op = ops[g % ops.len()];
        let sa = a.next();
        let (sb, _) = capture(|| {
            observe(&mut b, op, g);
            b.next()
        });
        fp_step(ctx, id, &sb);
        if !twins_equal(ctx, &sa, &sb, &|| format!("{} ops {:?} step {}", what, ops, g)) {
            return;
        }
    }
    ctx.trace();
}

/// what an objective that is itself an optimisation does to get its value
fn inner(how: usize, x: &DVector<f64>) -> f64 {
    let y = x.clone();
    let f = move |z: &DVector<f64>| (y[0] - z[0]).abs() + 0.3 * y.norm() + 0.1 * z.norm_squared();
    let seed = x[0].to_bits() ^ how as u64;
    let o = CMAESOptions::new(vec![0.4; 1 + how % 2], 0.8).seed(seed).max_generations(3);
    match how {
        0 => {
            let mut es = o.build(f).unwrap();
            let _ = es.next();
            let _ = es.next();
            es.overall_best_individual().unwrap().value
        }
        1 => o.build(f).unwrap().run().overall_best.unwrap().value,
        2 => o.build(f).unwrap().run_parallel().overall_best.unwrap().value,
        3 => {
            let mut es = o.parallel_update(true).build(f).unwrap();
            let _ = es.next_parallel();
            let _ = es.next();
            es.overall_best_individual().unwrap().value
        }
        _ => {
            use cmaes::restart::*;
            let s = if how == 4 { RestartStrategy::Local(Local::new(2, None).unwrap()) } else { RestartStrategy::BIPOP(BIPOP::default()) };
            let r = RestartOptions::new(1, -1.0..=1.0, s).seed(seed).max_generations_per_run(2).max_function_evals(20).build().unwrap();
            let r = if how == 4 { r.run(|| &f) } else { r.run_parallel(|| &f) };
            r.best.unwrap().value
        }
    }
}

/// Optimisers that run while another one is evaluating a point: neither disturbs the other, so the outer one does what it
/// does with a table of the same values.
pub fn nested(ctx: &mut Ctx, n: usize, gens: usize) {
    for how in 0..6 {
        for outer in 0..4usize {
            for mode in MODES {
                let cfg = Cfg::quiet(n, 4).seed(how as u64).mode(mode);
                let what = format!("n={} {} optimiser over inner optimisation {}", n, ["stepped", "run", "parallel stepped", "parallel run"][outer], how);
                let drive = |g: &(dyn Fn(&DVector<f64>) -> f64 + Sync)| {
                    let mut o = cfg.options();
                    o.max_generations = Some(gens);
                    let f = |x: &DVector<f64>| g(x);
                    guarded(|| {
                        let mut es = o.build(f).unwrap();
                        let mut end = None;
                        match outer {
                            0 => while end.is_none() { end = es.next() },
                            1 => end = Some(es.run()),
                            2 => while end.is_none() { end = es.next_parallel() },
                            _ => end = Some(es.run_parallel()),
                        }
                        (Snap::of(&es), es.function_evals(), end.unwrap().reasons)
                    })
                };
                let table: Mutex<HashMap<Vec<u64>, f64>> = Default::default();
                let key = |x: &DVector<f64>| x.iter().map(|v| v.to_bits()).collect::<Vec<_>>();
                let a = drive(&|x| {
                    let v = inner(how, x);
                    table.lock().unwrap_or_else(|e| e.into_inner()).insert(key(x), v);
                    v
                });
                let a = match a {
                    Ok(a) => a,
                    Err(m) => {
                        ctx.viol("nested-panic", format!("{}: panics: {}", what, m));
                        continue;
                    }
                };
                let table = table.into_inner().unwrap();
                let missing = AtomicUsize::new(0);
                let b = drive(&|x| match table.get(&key(x)) {
                    Some(v) => *v,
                    None => {
                        missing.fetch_add(1, Ordering::SeqCst);
                        0.0
                    }
                });
                let same = matches!(&b, Ok(b) if b.0.same(&a.0) && b.1 == a.1 && b.2 == a.2);
                if !same || missing.load(Ordering::SeqCst) > 0 || table.len() != 4 * gens {
                    ctx.viol("nested", format!("{}: with the same answers from a table the run is another one ({} points evaluated, {} unknown ones)", what, table.len(), missing.load(Ordering::SeqCst)));
                }
                // the inner ones do what they do alone
                for (k, v) in &table {
                    let x = DVector::from_iterator(k.len(), k.iter().map(|b| f64::from_bits(*b)));
                    let alone = inner(how, &x);
                    if alone.to_bits() != v.to_bits() {
                        ctx.viol("nested-inner", format!("{}: the inner optimisation gives {:e}, alone {:e}", what, v, alone));
                    }
                    let mut f = Fp::new("nested");
                    f.fs(x.as_slice()).u((how * 4 + outer) as u64);
                    ctx.state(f.0);
                }
                ctx.trans(3 * table.len() as u64);
                ctx.trace();
                if ctx.full() {
                    return;
                }
            }
        }
    }
}

pub fn p18(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    // an objective that is itself an optimisation
    for n in [1usize, 2, 3] {
        js.push(job(format!("nested n={}", n), move |ctx| nested(ctx, n, ctx.tier.pick(5, 25))));
    }
    let menu = [Op::Nothing, Op::Accessors, Op::Info, Op::Initial, Op::Final, Op::PlotPoint, Op::PlotClear, Op::Other];
    // a) all observer sequences, printing and plotting on and off
    for print in [None, Some(0usize), Some(7), Some(usize::MAX / 4)] {
        for plot in [None, Some(0usize), Some(9)] {
            for kind in [Kind::Sphere, Kind::Ties(2, 2), Kind::Infs(1)] {
                js.push(job(format!("observers print={:?} plot={:?} {:?}", print, plot, kind), move |ctx| {
                    let len = ctx.tier.pick(3, 4);
                    for s in sequences(menu.len(), len) {
                        let ops: Vec<Op> = s.iter().map(|i| menu[*i]).collect();
                        let plain = Cfg::quiet(2, 5).seed(s[0] as u64 + 1);
                        let mut obs = plain.clone();
                        obs.print = print;
                        obs.plot = plot.map(|g| (g, false));
                        let what = format!("print={:?} plot={:?} {:?}", print, plot, kind);
                        ctx.sample(|| json!(format!("{} {:?}", what, ops)));
                        observed_walk(ctx, &plain, &obs, &|| kpol(kind), &ops, 2 * len, &what);
                        if ctx.full() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // b) saving in between
    for plot in [0usize, 9] {
        js.push(job(format!("saving plot={}", plot), move |ctx| {
            for n in [1usize, 3] {
                let plain = Cfg::quiet(n, 4);
                let mut obs = plain.clone();
                obs.plot = Some((plot, true));
                observed_walk(ctx, &plain, &obs, &|| kpol(Kind::Rosen), &[Op::PlotSave, Op::Nothing, Op::PlotClear, Op::PlotSave], 8, "saving");
            }
        }));
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                for var in 0..3 {
                    let mut plain = if var == 0 { Cfg::quiet(n, lambda) } else { Cfg::new(vec![0.5; n], 0.7).lam(lambda) }.w(WS[(ki + n) % 3]).seed(ki as u64);
                    if var == 2 {
                        plain.mode = Some(Mode::Maximize);
                        plain.constraints = Some(Box::new(Bounds { lower: vec![-1e3; n], upper: vec![1e3; n] }));
                    }
                    let mut obs = plain.clone();
                    obs.print = Some(7 * lambda);
                    obs.plot = Some((5 * lambda, false));
                    let what = format!("wide {:?} n={} lambda={} variant {}", k, n, lambda, var);
                    observed_walk(ctx, &plain, &obs, &|| nan_pol(k), &[Op::Nothing, Op::Accessors, Op::Nothing, Op::Nothing, Op::PlotPoint, Op::Info, Op::PlotClear], gens / 2, &what);
                    if ctx.full() {
                        return;
                    }
                }
            }));
        }
    }
    // c) configuration lattice: plain twins, observed twins, twins in threads, interleaved twins, cloned options
    let kinds = all_kinds();
    for n in [1usize, 2, 3, 8] {
        for lambda in [2usize, 6, 15] {
            let kinds = kinds.clone();
            js.push(job(format!("twins n={} lambda={}", n, lambda), move |ctx| {
                for kind in &kinds {
                    for w in WS {
                        for seed in [0u64, 1, 42, u64::MAX] {
                            for var in 0..3 {
                                let mut plain = Cfg::new(vec![0.5; n], 0.7).lam(lambda).w(w).seed(seed);
                                match var {
                                    0 => {}
                                    1 => plain.constraints = Some(Box::new(Bounds { lower: vec![-1.0; n], upper: vec![1.5; n] })),
                                    _ => {
                                        plain.mode = Some(Mode::Maximize);
                                        plain.max_evals = Some(10 * lambda);
                                        plain.max_time = Some(Duration::from_secs(3600));
                                    }
                                }
                                let mut obs = plain.clone();
                                obs.print = Some(3 * lambda);
                                obs.plot = Some((2 * lambda, false));
                                let what = format!("{:?} n={} lambda={} w={} seed={} variant {}", kind, n, lambda, wname(w), seed, var);
                                observed_walk(ctx, &plain, &plain, &|| kpol(*kind), &[Op::Nothing], ctx.tier.pick(25, 120), &what);
                                observed_walk(ctx, &plain, &obs, &|| kpol(*kind), &[Op::Nothing, Op::Accessors], ctx.tier.pick(25, 120), &what);
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    js.push(job("interleavings", |ctx| {
        // three optimisers, all interleavings of their steps, against each running alone
        let cfgs = [Cfg::quiet(2, 4).seed(1), Cfg::quiet(2, 4).seed(1).mode(Mode::Maximize), Cfg::quiet(1, 3).seed(2)];
        let kinds = [Kind::Sphere, Kind::Elli(3.0), Kind::Ties(5, 2)];
        let depth = ctx.tier.pick(7, 9);
        let mut alone: Vec<Vec<Step>> = vec![];
        for i in 0..3 {
            let mut r = Run::new(&cfgs[i], kpol(kinds[i]));
            alone.push((0..depth).map(|_| r.next()).collect());
        }
        for s in sequences(3, depth) {
            let mut rs: Vec<Run> = (0..3).map(|i| Run::new(&cfgs[i], kpol(kinds[i]))).collect();
            for i in &s {
                let k = rs[*i].step;
                let st = rs[*i].next();
                fp_step(ctx, *i as u64, &st);
                if !twins_equal(ctx, &alone[*i][k], &st, &|| format!("interleaving {:?}", s)) {
                    return;
                }
            }
            ctx.trace();
        }
    }));
    js.push(job("random-seeds", |ctx| {
        // a run with a random seed is reproduced from the reported seed
        let mut seen = std::collections::HashSet::new();
        for i in 0..ctx.tier.pick(60, 600) {
            let mut cfg = Cfg::quiet(1 + i % 4, 2 + i % 5);
            cfg.seed = None;
            let mut a = Run::new(&cfg, kpol(Kind::Sphere));
            let seed = a.es.parameters().seed();
            seen.insert(seed);
            let cfb = cfg.clone().seed(seed);
            let mut b = Run::new(&cfb, kpol(Kind::Sphere));
            if b.es.parameters().seed() != seed {
                ctx.viol("seed-reported", format!("seed {} was set, {} is reported", seed, b.es.parameters().seed()));
            }
            for g in 0..10 {
                let (sa, sb) = (a.next(), b.next());
                fp_step(ctx, i as u64, &sb);
                if !twins_equal(ctx, &sa, &sb, &|| format!("seed chosen at random {} step {}", seed, g)) {
                    return;
                }
            }
            ctx.trace();
        }
        if seen.len() < 50 {
            ctx.viol("random-seed-constant", format!("only {} different seeds in {} runs without a seed", seen.len(), ctx.tier.pick(60, 600)));
        }
    }));
    js.push(job("seeds-matter", |ctx| {
        // different seeds give different first points
        let mut pts: Vec<(u64, Vec<f64>)> = vec![];
        let mut seeds: Vec<u64> = (0..ctx.tier.pick(200, 2000)).collect();
        seeds.extend((0..64).map(|k| 1u64 << k));
        seeds.extend((1..64).map(|k| u64::MAX >> k));
        seeds.sort();
        seeds.dedup();
        for s in seeds {
            let mut r = Run::new(&Cfg::quiet(2, 2).seed(s), kpol(Kind::Sphere));
            let st = r.next();
            fp_step(ctx, s, &st);
            if let Some(o) = pts.iter().find(|p| bits(&p.1, &st.calls[0].x)) {
                ctx.viol("seeds-alike", format!("seeds {} and {} give the same first point", s, o.0));
                return;
            }
            pts.push((s, st.calls[0].x.clone()));
            ctx.trace();
        }
    }));
    js.push(job("option-clones", |ctx| {
        // the same options value, cloned, built several times, in other threads and with other objective types
        for seed in 0..ctx.tier.pick(10u64, 100) {
            let cfg = Cfg::quiet(3, 7).seed(seed);
            let o = cfg.options().enable_plot(PlotOptions::new(0, false));
            let drive = |o: cmaes::CMAESOptions| {
                let mut es = o.build(|x: &cmaes::DVector<f64>| x.iter().map(|v| v * v).sum::<f64>()).unwrap();
                for _ in 0..12 {
                    let _ = es.next();
                }
                Snap::of(&es)
            };
            let a = drive(o.clone());
            let b = drive(o.clone());
            let c = std::thread::scope(|s| s.spawn(|| drive(cfg.options())).join().unwrap());
            ctx.trans(36);
            ctx.trace();
            if !a.same(&b) || !a.same(&c) {
                ctx.viol("clone-differs", format!("seed {}: {:?} / {:?} / {:?}", seed, a, b, c));
            }
        }
    }));
    let _ = tier;
    js
}
