//! P09-P15 termination.

use crate::checks::core::{cfg_fp, words};
use crate::rt::*;
use crate::sim::*;
use crate::term::*;
use cmaes::{Mode, Weights};
use serde_json::json;
use std::time::Duration;

fn compare(ctx: &mut Ctx, what: &str, g: usize, cfg: &Cfg, st: &Step, vs: &[(TR, V)]) {
    for (r, x) in vs {
        let got = has(&st.out, *r);
        let bad = match x {
            V::Must => !got,
            V::Not => got,
            V::Either => {
                ctx.count("undecided_verdicts", 1);
                false
            }
        };
        ctx.count(if got { "verdicts_reported" } else { "verdicts_not_reported" }, 1);
        if bad {
            ctx.viol(
                format!("{:?}", r),
                format!(
                    "{} step {}: {:?} is {}reported (reasons {:?}) n={} lambda={} w={:?} mode={:?} seed={:?} values {:?} sigma {:e}",
                    what, g, r, if got { "" } else { "not " }, reasons(&st.out), cfg.dim(), cfg.lambda(), cfg.weights, cfg.mode, cfg.seed,
                    st.calls.iter().map(|c| c.f).take(8).collect::<Vec<_>>(), st.after.sigma
                ),
            );
        }
    }
}

fn fp(ctx: &mut Ctx, id: u64, st: &Step) {
    let mut f = Fp(id);
    st.after.fp(&mut f);
    for r in reasons(&st.out) {
        f.s(&format!("{:?}", r));
    }
    ctx.state(f.0);
    ctx.trans(1);
}

/// Steps (past termination) and compares the selected verdicts in every generation
fn walk(ctx: &mut Ctx, cfg: &Cfg, pol: Pol, steps: usize, what: &str, model: bool, sel: &dyn Fn(&Term, &Step) -> Vec<(TR, V)>) {
    let id = cfg_fp(cfg);
    let mut r = Run::new(cfg, pol);
    let mut t = Term::new(cfg, model);
    for g in 0..steps {
        let st = r.next();
        fp(ctx, id, &st);
        if t.step(&st) {
            let vs = sel(&t, &st);
            compare(ctx, what, g, cfg, &st, &vs);
        } else if has(&st.out, TR::PosDefCov) {
            break;
        }
        if ctx.full() {
            return;
        }
    }
    ctx.trace();
}

// ---------------------------------------------------------------------------------------------

pub fn p09(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    // a) evaluation and generation limits
    for lambda in [2usize, 3, 5, 8, 20] {
        for n in [1usize, 4] {
            js.push(job(format!("limits lambda={} n={}", lambda, n), move |ctx| {
                let l = lambda;
                let big = usize::MAX;
                let evs: Vec<Option<usize>> = vec![None, Some(0), Some(1), Some(l - 1), Some(l), Some(l + 1), Some(2 * l - 1), Some(2 * l), Some(2 * l + 1), Some(5 * l), Some(5 * l + 1), Some(big)];
                let gens: Vec<Option<usize>> = vec![None, Some(0), Some(1), Some(2), Some(3), Some(5), Some(7), Some(big)];
                for ev in &evs {
                    for ge in &gens {
                        // aborted generations: all masks over the first steps
                        for mask in 0..ctx.tier.pick(32, 256usize) {
                            let mut cfg = Cfg::quiet(n, l);
                            cfg.max_evals = *ev;
                            cfg.max_gens = *ge;
                            let what = format!("max_evals={:?} max_gens={:?} aborted={:b}", ev, ge, mask);
                            ctx.sample(|| json!(what));
                            let pol: Pol = Box::new(move |q| if q.step < 8 && mask >> q.step & 1 == 1 && q.idx == (q.step + mask) % l { f64::NAN } else { q.x[0] });
                            walk(ctx, &cfg, pol, 9, &what, false, &|t, _| t.budgets());
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                // limits at every scale, reached in the middle of the history and passed
                for (vi, nans) in [false, true, false].into_iter().enumerate() {
                    let mut cfg = Cfg::quiet(n, lambda).mode(MODES[ki % 2]).w(WS[(ki + n) % 3]);
                    let at = gens * (ki + 1) / 9;
                    cfg.max_evals = Some((at * lambda + [0, 1, lambda - 1][vi]).saturating_sub(vi / 2));
                    cfg.max_gens = Some(at + 3 * vi);
                    cfg.max_time = Some(Duration::from_nanos((at + 5) as u64 * 1_000 + vi as u64));
                    let what = format!("wide {:?} nans={} limits {:?} {:?} {:?}", k, nans, cfg.max_evals, cfg.max_gens, cfg.max_time);
                    let id = cfg_fp(&cfg);
                    with_virtual_clock(|| {
                        let mut p = if nans { nan_pol(k) } else { kpol(k) };
                        let pol: Pol = Box::new(move |q| {
                            if q.idx == 0 {
                                advance_ns(1_000);
                            }
                            p(q)
                        });
                        let mut r = Run::new(&cfg, pol);
                        let mut t = Term::new(&cfg, false);
                        for g in 0..gens {
                            let st = r.next();
                            fp(ctx, id, &st);
                            t.elapsed += 1_000;
                            if t.step(&st) {
                                let vs = t.budgets();
                                compare(ctx, &what, g, &cfg, &st, &vs);
                            }
                            if has(&st.out, TR::PosDefCov) || ctx.full() {
                                break;
                            }
                        }
                    });
                    ctx.trace();
                    if ctx.full() {
                        return;
                    }
                }
            }));
        }
    }
    // b) time limits: all sequences of generation durations
    let t = 10_000_000i64; // limit in ns
    let durs = [0i64, 1, t / 2, t - 1, t, 3 * t, 1_000_000_000];
    for (li, limit) in [None, Some(0i64), Some(1), Some(t), Some(t + 1), Some(3 * t), Some(2_000_000_000), Some(i64::MAX)].into_iter().enumerate() {
        for first in 0..durs.len() {
            js.push(job(format!("time limit={} first={}", li, first), move |ctx| {
                let depth = ctx.tier.pick(4, 5);
                for rest in sequences(durs.len(), depth - 1) {
                    let ds: Vec<i64> = std::iter::once(first).chain(rest.iter().cloned()).map(|i| durs[i]).collect();
                    // where the time passes: in the last evaluation, spread, before or after the step
                    for place in 0..4 {
                        if place > 1 && ctx.tier == Tier::Quick && ds[1] != durs[(place + first) % durs.len()] {
                            continue;
                        }
                        let mut cfg = Cfg::quiet(2, 3);
                        cfg.max_time = limit.map(|l| Duration::from_nanos(l as u64));
                        let id = cfg_fp(&cfg);
                        let d2 = ds.clone();
                        with_virtual_clock(|| {
                            let pol: Pol = Box::new(move |q| {
                                let d = d2.get(q.step).cloned().unwrap_or(0);
                                match place {
                                    0 if q.idx == 2 => advance_ns(d),
                                    1 => advance_ns(if q.idx == 0 { d - 2 * (d / 3) } else { d / 3 }),
                                    _ => {}
                                }
                                q.x[0]
                            });
                            let mut r = Run::new(&cfg, pol);
                            let mut t = Term::new(&cfg, false);
                            for (g, d) in ds.iter().enumerate() {
                                if place == 2 {
                                    advance_ns(*d);
                                }
                                let st = r.next();
                                fp(ctx, id ^ *d as u64, &st);
                                if place != 3 {
                                    t.elapsed += *d as u128;
                                }
                                if t.step(&st) {
                                    let vs = t.budgets();
                                    compare(ctx, &format!("limit {:?} ns, durations {:?} placed {}", limit, ds, place), g, &cfg, &st, &vs);
                                }
                                if place == 3 {
                                    advance_ns(*d);
                                    t.elapsed += *d as u128;
                                }
                            }
                        });
                        ctx.trace();
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // c) combinations with the clock, whole runs stop at the first chance
    for lambda in [2usize, 5] {
        for par in [false, true] {
            js.push(job(format!("runs lambda={} par={}", lambda, par), move |ctx| {
                for ev in [None, Some(0), Some(7), Some(30), Some(31)] {
                    for ge in [None, Some(0), Some(1), Some(4), Some(9)] {
                        for ti in [None, Some(0u64), Some(1), Some(40), Some(41), Some(95)] {
                            if ev.is_none() && ge.is_none() && ti.is_none() {
                                continue;
                            }
                            let mut cfg = Cfg::quiet(2, lambda);
                            cfg.max_evals = ev;
                            cfg.max_gens = ge;
                            cfg.max_time = ti.map(Duration::from_millis);
                            let what = format!("run lambda={} max_evals={:?} max_gens={:?} max_time={:?}ms, 2 ms per evaluation", lambda, ev, ge, ti);
                            with_virtual_clock(|| {
                                let mut r = Run::new(&cfg, Box::new(|q| {
                                    advance_ns(2_000_000);
                                    q.x[0]
                                }));
                                let td = if par { r.es.run_parallel() } else { r.es.run() };
                                // first generation at which one of the limits is reached
                                let mut g = 1usize;
                                let due = |g: usize| {
                                    let mut v = vec![];
                                    if ev.map_or(false, |e| g * lambda >= e) {
                                        v.push(TR::MaxFunctionEvals);
                                    }
                                    if ge.map_or(false, |e| g >= e) {
                                        v.push(TR::MaxGenerations);
                                    }
                                    if ti.map_or(false, |e| (g * lambda * 2) as u64 >= e) {
                                        v.push(TR::MaxTime);
                                    }
                                    v
                                };
                                while due(g).is_empty() {
                                    g += 1;
                                }
                                let mut a = td.reasons.clone();
                                let mut b = due(g);
                                a.sort_by_key(|r| format!("{:?}", r));
                                b.sort_by_key(|r| format!("{:?}", r));
                                ctx.trans(g as u64);
                                if r.es.generation() != g || a != b {
                                    ctx.viol("run-budget", format!("{}: stopped after {} generations with {:?}, expected {} with {:?}", what, r.es.generation(), a, g, b));
                                }
                            });
                            ctx.trace();
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    js
}

// ---------------------------------------------------------------------------------------------

fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        5e-324
    } else if x > 0.0 {
        f64::from_bits(x.to_bits() + 1)
    } else {
        f64::from_bits(x.to_bits() - 1)
    }
}
fn next_down(x: f64) -> f64 {
    -next_up(-x)
}

pub fn p10(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    let inf = f64::INFINITY;
    let targets = [None, Some(0.0), Some(-0.0), Some(1.5), Some(-3.0), Some(1e300), Some(f64::MAX), Some(f64::MIN), Some(inf), Some(-inf), Some(5e-324), Some(-5e-324), Some(1e-12), Some(0.1 + 0.2)];
    for (ti, target) in targets.into_iter().enumerate() {
        for mode in MODES {
            for lambda in [2usize, 3, 4, 7] {
                js.push(job(format!("target={} mode={} lambda={}", ti, mname(mode), lambda), move |ctx| {
                    let t = target.unwrap_or(0.0);
                    let mut alpha = vec![t, -inf, inf];
                    if t.is_finite() {
                        alpha.extend([next_up(t), next_down(t), t + 1.0 + t.abs(), t - 1.0 - t.abs(), -t]);
                    } else {
                        alpha.extend([0.0, f64::MAX, f64::MIN]);
                    }
                    let ws: Vec<Vec<f64>> = match lambda {
                        2 | 3 => words(&alpha, lambda),
                        4 => words(&alpha, lambda).into_iter().step_by(ctx.tier.pick(3, 1)).collect(),
                        _ => {
                            // one special value at each position among values on one side
                            let mut v = vec![];
                            for base in &alpha {
                                for x in &alpha {
                                    for p in 0..lambda {
                                        let mut w = vec![*base; lambda];
                                        w[p] = *x;
                                        v.push(w);
                                    }
                                }
                            }
                            v
                        }
                    };
                    // three generations each: the verdict belongs to the generation, not to the history
                    for (i, w) in ws.iter().enumerate() {
                        let w2 = ws[(i * 31 + 7) % ws.len()].clone();
                        let mut cfg = Cfg::quiet(1 + i % 3, lambda).mode(mode).seed((i % 5) as u64);
                        cfg.fun_target = target;
                        let what = format!("target {:?} answers {:?} {:?}", target, w, w2);
                        ctx.sample(|| json!(what));
                        walk(ctx, &cfg, wpol(vec![w.clone(), w2]), 3, &what, false, &|t, st| vec![t.target(&st.calls.iter().map(|c| c.f).collect::<Vec<_>>())]);
                        if ctx.full() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                // the target is a value met in the middle of the history, exactly or one ulp beside; the walk goes on after it
                let base = Cfg::quiet(n, lambda).mode(MODES[ki % 2]).w(WS[(ki + n) % 3]);
                let mut probe = Run::new(&base, nan_pol(k));
                let mut vals: Vec<f64> = vec![];
                for g in 0..gens {
                    let st = probe.next();
                    if g % (gens / 5).max(1) == 1 {
                        vals.extend(st.calls.iter().map(|c| c.f).filter(|f| f.is_finite()).take(1));
                    }
                }
                for v in vals {
                    for target in [v, next_up(v), next_down(v)] {
                        let mut cfg = base.clone();
                        cfg.fun_target = Some(target);
                        walk(ctx, &cfg, nan_pol(k), gens, &format!("wide {:?} target {:e}", k, target), false, &|t, st| vec![t.target(&st.calls.iter().map(|c| c.f).collect::<Vec<_>>())]);
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // whole runs on landscapes: the run ends in the first generation with such a value
    for n in [1usize, 2, 5] {
        for mode in MODES {
            js.push(job(format!("runs n={} mode={}", n, mname(mode)), move |ctx| {
                for k in [Kind::Sphere, Kind::Elli(3.0), Kind::Rosen, Kind::Rastrigin, Kind::Hash(3), Kind::Lin(0, false)] {
                    for seed in 0..ctx.tier.pick(4, 40) {
                        for par in [false, true] {
                            if par && seed > 2 {
                                continue;
                            }
                            let sgn = if mode == Mode::Maximize { -1.0f64 } else { 1.0 };
                            let mk = move || -> Pol { Box::new(move |q| sgn * kind_value(k, q)) };
                            let base = Cfg::quiet(n, 6).mode(mode).seed(seed).at(vec![0.7; n], 0.5);
                            let mut probe = Run::new(&base, mk()).auto();
                            let mut vals: Vec<Vec<f64>> = vec![];
                            for _ in 0..20 {
                                vals.push(probe.next().calls.iter().map(|c| c.f).collect());
                            }
                            // targets: every generation's best, exactly and one ulp beside
                            for g in [0usize, 1, 5, 12, 19] {
                                let b = vals[g].iter().cloned().fold(f64::INFINITY, |a, x| if sgn * x < sgn * a || a == f64::INFINITY { x } else { a });
                                for target in [b, next_up(b), next_down(b)] {
                                    let mut cfg = base.clone();
                                    cfg.fun_target = Some(target);
                                    cfg.max_gens = Some(20);
                                    let mut r = Run::new(&cfg, mk()).auto();
                                    let td = if par { r.es.run_parallel() } else { r.es.run() };
                                    let hit = vals.iter().position(|v| v.iter().any(|x| sgn * x <= sgn * target));
                                    let (eg, er) = match hit {
                                        Some(h) => (h + 1, true),
                                        None => (20, false),
                                    };
                                    ctx.trans(eg as u64);
                                    ctx.trace();
                                    if r.es.generation() != eg || td.reasons.contains(&TR::FunTarget) != er {
                                        ctx.viol("run-target", format!("{:?} seed {} target {:e}: stopped in generation {} with {:?}, expected {} (target reached: {})", k, seed, target, r.es.generation(), td.reasons, eg, er));
                                        if ctx.full() {
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    js
}

// ---------------------------------------------------------------------------------------------

pub fn p11(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    let tol = 1.0 / 1024.0;
    // (dimension, population): different window lengths
    let mut cfgs = vec![(1usize, 6usize), (2, 6), (3, 30), (3, 7), (2, 2), (1, 31), (4, 120), (1, 2), (1, 3), (5, 8)];
    if tier == Tier::Thorough {
        cfgs.extend([(7, 4), (10, 10), (20, 13), (6, 200), (1, 30), (1, 29), (3, 45), (8, 2)]);
    }
    let u = tol / 1024.0;
    let devs = [tol, tol - u, tol + u, tol / 2.0, 4.0, -tol, -(tol - u), -(tol + u)];
    let allc = cfgs.clone();
    for (n, l) in cfgs {
        for mode in MODES {
            let w = 10 + (30 * n).div_ceil(l);
            // a) one deviating generation: which value deviates, by how much, when
            js.push(job(format!("one n={} lambda={} mode={}", n, l, mname(mode)), move |ctx| {
                let total = 2 * w + 4;
                for d in devs {
                    // which values of the generation: all, all but one, only one at the front / at the end
                    for part in 0..4usize {
                        for at in 0..=(w + 2) {
                            if ctx.tier == Tier::Quick && w > 25 && at > 3 && at + 3 < w && at % 5 != 0 {
                                continue;
                            }
                            let mut cfg = Cfg::quiet(n, l).mode(mode).seed(at as u64);
                            cfg.tol_fun = Some(tol);
                            cfg.tol_fun_hist = Some(if part % 2 == 0 { tol } else { tol * 2.0 });
                            let pol: Pol = Box::new(move |q| {
                                if q.step == at {
                                    let hit = match part {
                                        0 => true,
                                        1 => q.idx != at % l,
                                        2 => q.idx == 0,
                                        _ => q.idx == l - 1,
                                    };
                                    if hit {
                                        return 3.0 + d;
                                    }
                                }
                                3.0
                            });
                            let what = format!("3 with deviation {:e} in step {} (part {})", d, at, part);
                            ctx.sample(|| json!(what));
                            walk(ctx, &cfg, pol, total, &what, false, &|t, st| t.flat(&st.calls.iter().map(|c| c.f).collect::<Vec<_>>()));
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
            // b) the relative tolerance: values fall from a first level, flat with deviations afterwards
            js.push(job(format!("relative n={} lambda={} mode={}", n, l, mname(mode)), move |ctx| {
                let sgn = if mode == Mode::Maximize { -1.0 } else { 1.0 };
                for drop in [1024.0, -1024.0, 0.0, 1.0] {
                    for rel in [0.0, 1.0 / 1024.0, 1.0 / 1048576.0] {
                        for dip in [false, true] {
                            for d in [1.0, 1.0 - 1.0 / 1024.0, 1.0 + 1.0 / 1024.0, 1.0 / 1024.0, 2.0] {
                                for spread in [false, true] {
                                    let mut cfg = Cfg::quiet(n, l).mode(mode).seed(3);
                                    cfg.tol_fun_rel = Some(rel);
                                    let pol: Pol = Box::new(move |q| {
                                        let base = match q.step {
                                            0 => drop,
                                            // the best median may lie in between
                                            2 if dip => -512.0,
                                            _ => 0.0,
                                        };
                                        let dev = if spread { (q.step % 3 == 0 && q.idx == l - 1) as u8 as f64 * d } else { (q.step % 4 == 3) as u8 as f64 * d };
                                        sgn * (base + if q.step > 2 { dev } else { 0.0 })
                                    });
                                    let what = format!("first level {} then 0 (dip {}) deviations {:e} spread {} rel {:e}", drop, dip, d, spread, rel);
                                    walk(ctx, &cfg, pol, w + 8, &what, false, &|t, st| t.flat(&st.calls.iter().map(|c| c.f).collect::<Vec<_>>()));
                                    if ctx.full() {
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    // c) two deviations
    for (n, l) in allc.into_iter().take(4) {
        for mode in MODES {
            let w = 10 + (30 * n).div_ceil(l);
            js.push(job(format!("two n={} lambda={} mode={}", n, l, mname(mode)), move |ctx| {
                for a in 0..w {
                    for b in (a + 1)..(w + 3) {
                        for (da, db) in [(tol / 2.0, -tol / 2.0), (tol / 2.0, tol / 2.0), (tol / 2.0, -(tol / 2.0 - u)), (tol, 4.0)] {
                            if ctx.tier == Tier::Quick && (a + b) % 3 != 0 {
                                continue;
                            }
                            let mut cfg = Cfg::quiet(n, l).mode(mode).seed((a * b) as u64);
                            cfg.tol_fun = Some(tol);
                            cfg.tol_fun_hist = Some(tol);
                            let pol: Pol = Box::new(move |q| 3.0 + if q.step == a { da } else if q.step == b { db } else { 0.0 });
                            walk(ctx, &cfg, pol, 2 * w + 4, &format!("3 with {:e} in step {} and {:e} in step {}", da, a, db, b), false, &|t, st| t.flat(&st.calls.iter().map(|c| c.f).collect::<Vec<_>>()));
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // d) landscapes: defaults, random ties, aborted generations, infinities
    for n in [1usize, 2, 6] {
        for w in WS {
            js.push(job(format!("landscapes n={} w={}", n, wname(w)), move |ctx| {
                for (ki, k) in all_kinds().into_iter().enumerate() {
                    for l in [2usize, 5, 20] {
                        for (tf, th, rel) in [(None, None, None), (Some(1e-3), Some(1e-2), Some(1e-3)), (Some(3.0), Some(1.5), Some(0.4)), (Some(1.0), Some(0.0), Some(2.0))] {
                            let mut cfg = Cfg::quiet(n, l).w(w).mode(if ki % 2 == 0 { Mode::Minimize } else { Mode::Maximize }).seed(ki as u64);
                            cfg.tol_fun = tf;
                            cfg.tol_fun_hist = th;
                            cfg.tol_fun_rel = rel;
                            let max = cfg.is_max();
                            let pol: Pol = Box::new(move |q| {
                                if q.step % 11 == 10 && q.idx == 1 {
                                    f64::NAN
                                } else {
                                    kind_value(k, q) * if max { -1.0 } else { 1.0 }
                                }
                            });
                            walk(ctx, &cfg, pol, ctx.tier.pick(120, 600), &format!("{:?} tolerances {:?} {:?} {:?}", k, tf, th, rel), false, &|t, st| t.flat(&st.calls.iter().map(|c| c.f).collect::<Vec<_>>()));
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // d2) infinite values in the first generations, then flat with deviations
    for (n, l) in [(1usize, 6usize), (2, 7), (3, 30)] {
        for mode in MODES {
            let w = 10 + (30 * n).div_ceil(l);
            js.push(job(format!("infinite start n={} lambda={} mode={}", n, l, mname(mode)), move |ctx| {
                let inf = f64::INFINITY;
                // how many of the generation's values are infinite, and which way
                // (the median of opposite infinities in the middle of an even generation is not defined)
                for kinds in sequences(if l % 2 == 0 { 5 } else { 6 }, 2) {
                    for rel in [0.0, 1.0 / 1024.0, 2.0] {
                        for d in [0.0, 1.0, 3.0] {
                            let mut cfg = Cfg::quiet(n, l).mode(mode).seed(5);
                            cfg.tol_fun_rel = Some(rel);
                            cfg.tol_fun = Some(if d == 3.0 { 2.0 } else { 0.0 });
                            cfg.tol_fun_hist = Some(if d == 0.0 { 0.5 } else { 0.0 });
                            let kk = kinds.clone();
                            let pol: Pol = Box::new(move |q| {
                                let late = (q.step % 4 == 3) as u8 as f64 * d;
                                if q.step >= kk.len() {
                                    return late;
                                }
                                match kk[q.step] {
                                    0 => 512.0,
                                    1 => inf,
                                    2 => -inf,
                                    3 => if q.idx * 2 < l { inf } else { 1.0 },
                                    4 => if q.idx * 2 < l { -inf } else { 1.0 },
                                    _ => if q.idx * 2 < l { inf } else { -inf },
                                }
                            });
                            let what = format!("first generations {:?}, deviations {} rel {:e}", kinds, d, rel);
                            walk(ctx, &cfg, pol, w + 6, &what, false, &|t, st| t.flat(&st.calls.iter().map(|c| c.f).collect::<Vec<_>>()));
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // d3) the largest values (penalties) in the first generations
    for (n, l) in [(1usize, 6usize), (2, 7), (3, 30)] {
        for mode in MODES {
            let w = 10 + (30 * n).div_ceil(l);
            js.push(job(format!("huge start n={} lambda={} mode={}", n, l, mname(mode)), move |ctx| {
                let sgn = if mode == Mode::Maximize { -1.0 } else { 1.0 };
                for kinds in sequences(6, 2) {
                    for rel in [0.0, 1e-300, 1.0 / 1024.0, 2.0] {
                        for d in [0.0, 1.0, 1e305, 1e308] {
                            let mut cfg = Cfg::quiet(n, l).mode(mode).seed(5);
                            cfg.tol_fun_rel = Some(rel);
                            cfg.tol_fun = Some(if d == 1.0 { 2.0 } else { 0.0 });
                            cfg.tol_fun_hist = Some(if d == 1e305 { 2e305 } else { 0.0 });
                            let kk = kinds.clone();
                            let pol: Pol = Box::new(move |q| {
                                let late = (q.step % 4 == 3) as u8 as f64 * d;
                                if q.step >= kk.len() {
                                    return sgn * late;
                                }
                                sgn * match kk[q.step] {
                                    0 => 512.0,
                                    1 => f64::MAX,
                                    2 => f64::MAX * (0.75 + 0.0625 * (q.idx % 3) as f64),
                                    3 => -f64::MAX,
                                    4 => if q.idx * 2 < l { f64::MAX } else { 1.0 },
                                    _ => if q.idx * 2 <= l { f64::MAX } else { 0.5 * f64::MAX },
                                }
                            });
                            let what = format!("first generations {:?} (huge), deviations {:e} rel {:e}", kinds, d, rel);
                            walk(ctx, &cfg, pol, w + 6, &what, false, &|t, st| t.flat(&st.calls.iter().map(|c| c.f).collect::<Vec<_>>()));
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                for (tf, th, rel) in [(Some(1e-3), Some(1e-2), Some(1e-3)), (Some(3.0), Some(1.5), Some(0.4)), (Some(0.0), Some(1.0), Some(2.0))] {
                    for nans in [false, true] {
                        let mut cfg = Cfg::quiet(n, lambda).mode(MODES[ki % 2]).w(WS[(ki + n) % 3]).seed(ki as u64);
                        cfg.tol_fun = tf;
                        cfg.tol_fun_hist = th;
                        cfg.tol_fun_rel = rel;
                        let g = if gens > 1000 { gens / 3 } else { gens };
                        walk(ctx, &cfg, if nans { nan_pol(k) } else { kpol(k) }, g, &format!("wide {:?} nans={} tolerances {:?} {:?} {:?}", k, nans, tf, th, rel), false, &|t, st| t.flat(&st.calls.iter().map(|c| c.f).collect::<Vec<_>>()));
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // e) the first and best median lie further back than the value histories reach
    for mode in MODES {
        js.push(job(format!("long relative mode={}", mname(mode)), move |ctx| {
            let sgn = if mode == Mode::Maximize { -1.0 } else { 1.0 };
            let mut cfg = Cfg::quiet(1, 2).mode(mode);
            cfg.tol_fun_rel = Some(1.0 / 1024.0);
            let pol: Pol = Box::new(move |q| sgn * match q.step {
                0 => 1024.0,
                1 => -1024.0,
                s if s < 20_050 => (s % 7) as f64 * 0.5,
                s => (s % 3) as f64 * 0.75,
            });
            light(ctx, &cfg, pol, 20_300, "long relative", 0, &|t, fs| t.flat(fs));
        }));
    }
    js
}

/// Stepping without snapshots of the distribution, for long histories
fn light(ctx: &mut Ctx, cfg: &Cfg, pol: Pol, steps: usize, what: &str, from: usize, sel: &dyn Fn(&Term, &[f64]) -> Vec<(TR, V)>) {
    let mut r = Run::new(cfg, pol);
    let mut t = Term::new(cfg, false);
    for g in 0..steps {
        let out = r.raw_next();
        let fs: Vec<f64> = r.obj.0.lock().unwrap().calls.iter().map(|c| c.f).collect();
        ctx.trans(1);
        if fs.iter().any(|f| f.is_nan()) {
            continue;
        }
        t.record(&fs);
        if has(&out, TR::PosDefCov) {
            continue;
        }
        t.gens += 1;
        if g >= from {
            for (x, v) in sel(&t, &fs) {
                let got = has(&out, x);
                ctx.count("verdicts", 1);
                if (v == V::Must && !got) || (v == V::Not && got) {
                    ctx.viol(format!("{:?}", x), format!("{} step {}: {:?} is {}reported", what, g, x, if got { "" } else { "not " }));
                    return;
                }
            }
        }
    }
    let mut f = Fp(cfg_fp(cfg));
    f.s(what);
    ctx.state(f.0);
    ctx.trace();
}

// ---------------------------------------------------------------------------------------------

pub fn p12(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    let stag = |t: &Term, _: &[f64]| vec![t.stagnation()];
    // a) block histories: all sequences of (best level, median level) blocks
    for (bi, (blocks_n, len)) in [(3usize, 40usize), (4, 17), (3, 61)].into_iter().enumerate() {
        for minw in [0usize, 4, 7, 10, 25, 1000] {
            for mode in MODES {
                js.push(job(format!("blocks {} min={} mode={}", bi, minw, mname(mode)), move |ctx| {
                    let sgn = if mode == Mode::Maximize { -1.0 } else { 1.0 };
                    let k = ctx.tier.pick(blocks_n, blocks_n + 1);
                    for (si, s) in sequences(6, k).into_iter().enumerate() {
                        if ctx.tier == Tier::Quick && k == 4 && si % 2 != 0 {
                            continue;
                        }
                        let mut cfg = Cfg::quiet(1, 3).mode(mode).seed(1);
                        cfg.tol_stag = Some(minw);
                        // level pairs: best b in {0,1}, median m in {0,1,2} above it
                        let s2 = s.clone();
                        let pol: Pol = Box::new(move |q| {
                            let x = s2[(q.step / len).min(s2.len() - 1)];
                            let (b, m) = ((x % 2) as f64, (x / 2) as f64);
                            sgn * match (q.idx + q.step) % 3 {
                                0 => b,
                                1 => b + m,
                                _ => b + m + 1.0,
                            }
                        });
                        let what = format!("blocks {:?} of {} generations, minimum {}", s, len, minw);
                        ctx.sample(|| json!(what));
                        light(ctx, &cfg, pol, len * k, &what, 0, &stag);
                        if ctx.full() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // b) a single worsening at every moment of a history, for every population parity
    for l in [2usize, 3, 4, 7] {
        for mode in MODES {
            js.push(job(format!("single lambda={} mode={}", l, mname(mode)), move |ctx| {
                let sgn = if mode == Mode::Maximize { -1.0 } else { 1.0 };
                for at in 0..ctx.tier.pick(120, 220usize) {
                    for shape in 0..7 {
                        let mut cfg = Cfg::quiet(2, l).mode(mode).seed(at as u64);
                        cfg.tol_stag = Some([4, 5, 8, 13][at % 4]);
                        let pol: Pol = Box::new(move |q| {
                            let after = q.step >= at;
                            let lev = if after { 1.0 } else { 0.0 };
                            let v = match shape {
                                // everything gets worse
                                0 => lev + q.idx as f64 * 0.25,
                                // only the best
                                1 => if q.idx == 0 { lev } else { 2.0 },
                                // only the median (upper values)
                                2 => if q.idx == 0 { 0.0 } else { 2.0 + lev },
                                // improves
                                3 => -lev + q.idx as f64 * 0.25,
                                // among the largest values: worse, better
                                5 => f64::MAX * (0.75 + 0.125 * lev + 0.03125 * (q.idx % 3) as f64),
                                6 => f64::MAX * (0.75 - 0.125 * lev + 0.03125 * (q.idx % 3) as f64),
                                // slowly worse
                                _ => q.step as f64 / 64.0 + q.idx as f64 * 0.25,
                            };
                            sgn * v
                        });
                        light(ctx, &cfg, pol, 230, &format!("shape {} from step {}", shape, at), 0, &stag);
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // c) the default minimum, pseudo random values, infinities, aborted generations
    for n in [1usize, 2, 4] {
        for l in [2usize, 5, 12] {
            js.push(job(format!("default n={} lambda={}", n, l), move |ctx| {
                for (ki, k) in [Kind::Hash(1), Kind::Ties(2, 3), Kind::Infs(3), Kind::AntiSphere, Kind::Sphere, Kind::Index].into_iter().enumerate() {
                    for mode in MODES {
                        let mut cfg = Cfg::quiet(n, l).mode(mode).seed(ki as u64);
                        cfg.tol_stag = None;
                        let min = Term::new(&cfg, false).min_window();
                        let pol: Pol = Box::new(move |q| {
                            if q.step % 13 == 12 && q.idx == 0 {
                                f64::NAN
                            } else {
                                let v = kind_value(k, q);
                                if v.is_nan() { 0.0 } else { v }
                            }
                        });
                        let steps = (min * 5 + 300).min(6000);
                        light(ctx, &cfg, pol, steps, &format!("{:?} default minimum {}", k, min), 0, &stag);
                    }
                    // worsening around the moment the default minimum is reached
                    for off in [-30i64, -10, 0, 10] {
                        let mut cfg = Cfg::quiet(n, l).seed(ki as u64);
                        cfg.tol_stag = None;
                        let min = Term::new(&cfg, false).min_window();
                        let at = (min as i64 * 5 - min as i64 / 2 + off) as usize;
                        let pol: Pol = Box::new(move |q| if q.step >= at { 1.0 } else { 0.0 });
                        light(ctx, &cfg, pol, min * 5 + min, &format!("worse from {}", at), 0, &stag);
                    }
                    if ctx.full() {
                        return;
                    }
                }
            }));
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                for ts in [0usize, 4, 11, gens / 4] {
                    for nans in [false, true] {
                        let mut cfg = Cfg::quiet(n, lambda).mode(MODES[ki % 2]).w(WS[(ki + n) % 3]).seed(ki as u64);
                        cfg.tol_stag = Some(ts);
                        light(ctx, &cfg, if nans { nan_pol(k) } else { kpol(k) }, if gens > 1000 { gens / 2 } else { gens }, &format!("wide {:?} n={} lambda={} nans={} minimum {}", k, n, lambda, nans, ts), 0, &stag);
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // d) beyond the history cap
    for (ci, (minw, a, b)) in [(20_000usize, 86_500usize, 94_000usize), (19_990, 80_100, 94_100), (20_001, 86_000, 94_000), (20_000, 88_900, 97_050), (15_000, 88_900, 97_050)].into_iter().enumerate() {
        if tier == Tier::Quick && ci >= 4 {
            continue;
        }
        js.push(job(format!("cap {}", ci), move |ctx| {
            let mut cfg = Cfg::quiet(1, 2).seed(1);
            if ci % 2 == 1 {
                cfg = cfg.mode(Mode::Maximize);
            }
            let sgn = if ci % 2 == 1 { -1.0 } else { 1.0 };
            cfg.tol_stag = Some(minw);
            cfg.weights = Some(Weights::Positive);
            // level 0 up to a (with a better stretch), worse between a and b, then alternating
            let pol: Pol = Box::new(move |q| {
                let s = q.step;
                let l = if s < a { (s % 5) as f64 } else if s < b { 5.0 + (s % 3) as f64 } else { (s % 7) as f64 };
                sgn * (l + q.idx as f64 * 0.5)
            });
            // judge only in the interesting stretch (the oracle sorts)
            let n = ctx.tier.pick(100_600, 112_000);
            light(ctx, &cfg, pol, n, &format!("cap: minimum {} levels change at {} and {}", minw, a, b), if minw == 15_000 { 74_900 } else { 99_800 }, &|t, _| {
                if t.gens % 8 == 0 || (99_990..100_010).contains(&t.gens) { vec![t.stagnation()] } else { vec![] }
            });
        }));
    }
    js
}

// ---------------------------------------------------------------------------------------------

pub fn p13(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    let steps_sel = |t: &Term, st: &Step| t.stepsize(&st.after);
    for n in [1usize, 2, 3, 5, 9] {
        for w in WS {
            for l in [2usize, 5, 9] {
                js.push(job(format!("thresholds n={} w={} lambda={}", n, wname(w), l), move |ctx| {
                    let kinds = [Kind::Sphere, Kind::Near, Kind::Far, Kind::Lin(0, true), Kind::Elli(4.0), Kind::FarK(0), Kind::NearK(0), Kind::Hash(7), Kind::Cigar];
                    for (ki, k) in kinds.into_iter().enumerate() {
                        for (si, sigma) in [1.0, 0.01, 300.0].into_iter().enumerate() {
                            if si > 0 && (ki + si) % 3 != 0 && ctx.tier == Tier::Quick {
                                continue;
                            }
                            let base = Cfg::quiet(n, l).w(w).at((0..n).map(|i| i as f64 * 0.3 - 0.4).collect(), sigma).seed(ki as u64);
                            let steps = ctx.tier.pick(24, 60);
                            // probe
                            let mut probe = Run::new(&base, kpol(k));
                            let mut t = Term::new(&base, true);
                            let mut tx: Vec<f64> = vec![];
                            let mut tu: Vec<f64> = vec![];
                            for _ in 0..steps {
                                let st = probe.next();
                                if !t.step(&st) {
                                    break;
                                }
                                let c = t.crit(&st.after);
                                tx.extend(&c.sd);
                                tx.extend(&c.path);
                                tu.push(c.axis_up);
                                // and the readings it must not be confused with
                                tu.push(st.after.sigma / sigma);
                                tu.push(c.axis_up * c.axis_up);
                                tx.push(st.after.sigma);
                            }
                            tx.retain(|x| x.is_finite() && *x > 0.0);
                            tu.retain(|x| x.is_finite() && *x > 0.0);
                            let cap = ctx.tier.pick(60, 300);
                            let stride = (tx.len() / cap).max(1);
                            for (i, q) in tx.iter().enumerate() {
                                if i % stride != 0 && i < tx.len().saturating_sub(2 * n) {
                                    continue;
                                }
                                for f in [1.0 + 1e-6, 1.0 - 1e-6] {
                                    let mut cfg = base.clone();
                                    cfg.tol_x = Some(q * f);
                                    cfg.tol_x_up = Some(tu[i % tu.len()] * f);
                                    let what = format!("{:?} tol_x={:e} tol_x_up={:e}", k, q * f, tu[i % tu.len()] * f);
                                    ctx.sample(|| json!(what));
                                    walk(ctx, &cfg, kpol(k), steps, &what, true, &steps_sel);
                                    if ctx.full() {
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }));
            }
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                // thresholds just around values met on the way
                let base = Cfg::quiet(n, lambda).mode(MODES[ki % 2]).w(WS[(ki + n) % 3]).seed(ki as u64);
                let g = gens.min(ctx.tier.pick(120, 400));
                let mut probe = Run::new(&base, nan_pol(k));
                let mut t = Term::new(&base, true);
                let mut qs: Vec<(f64, f64)> = vec![];
                for i in 0..g {
                    let st = probe.next();
                    if t.step(&st) && i % (g / 4).max(1) == 2 {
                        let c = t.crit(&st.after);
                        qs.push((c.sd.iter().chain(&c.path).cloned().fold(0.0, f64::max), c.axis_up));
                    }
                }
                for (x, up) in qs {
                    for f in [1.0 + 1e-6, 1.0 - 1e-6] {
                        if !(x.is_normal() && up.is_normal()) {
                            continue;
                        }
                        let mut cfg = base.clone();
                        cfg.tol_x = Some(x * f);
                        cfg.tol_x_up = Some(up * f);
                        walk(ctx, &cfg, nan_pol(k), g, &format!("wide {:?} tol_x={:e} tol_x_up={:e}", k, x * f, up * f), true, &steps_sel);
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // defaults
    for n in [1usize, 2, 4] {
        for w in WS {
            js.push(job(format!("defaults n={} w={}", n, wname(w)), move |ctx| {
                for sigma in [1.0, 1e-3, 1e4, 1e-6, 1e-290, 1e-200, 1e-150, 1e150, 1e200, 1e290] {
                    for (ki, k) in [Kind::Near, Kind::Far, Kind::Lin(0, true), Kind::Sphere, Kind::Elli(3.0)].into_iter().enumerate() {
                        let mut cfg = Cfg::quiet(n, 7).w(w).at(vec![0.0; n], sigma).seed(ki as u64);
                        cfg.tol_x = None;
                        cfg.tol_x_up = None;
                        walk(ctx, &cfg, kpol(k), 500, &format!("{:?} defaults sigma0={:e}", k, sigma), true, &steps_sel);
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    js
}

// ---------------------------------------------------------------------------------------------

fn coord_check(ctx: &mut Ctx, t: &Term, st: &Step, what: &str) {
    let (sd, var) = t.coord(&st.after);
    let got = has(&st.out, TR::NoEffectCoord);
    let fits = |x: V| x == V::Either || (x == V::Must) == got;
    ctx.count("verdicts_no_effect_coord", 1);
    if fits(sd) {
        return;
    }
    let detail = format!(
        "{}: NoEffectCoord is {}reported; mean {:?} sigma {:e} diagonal {:?}",
        what,
        if got { "" } else { "not " },
        st.after.mean,
        st.after.sigma,
        (0..st.after.mean.len()).map(|i| st.after.cov.at(i, i)).collect::<Vec<_>>()
    );
    if fits(var) {
        ctx.count("noeffectcoord_variance_cases", 1);
        ctx.viol("noeffectcoord-variance", detail);
    } else {
        ctx.viol("NoEffectCoord", detail);
    }
}

fn p14_walk(ctx: &mut Ctx, cfg: &Cfg, pol: Pol, steps: usize, what: &str) {
    let id = cfg_fp(cfg);
    let mut r = Run::new(cfg, pol);
    let mut t = Term::new(cfg, true);
    for g in 0..steps {
        let st = r.next();
        fp(ctx, id, &st);
        if t.step(&st) {
            let vs = [t.condition(&st.after), t.axis(&st.after)];
            compare(ctx, what, g, cfg, &st, &vs);
            coord_check(ctx, &t, &st, &format!("{} step {}", what, g));
        } else if has(&st.out, TR::PosDefCov) {
            break;
        }
        if ctx.viols.iter().filter(|v| v.key != "noeffectcoord-variance").count() > 6 {
            return;
        }
    }
    ctx.trace();
}

pub fn p14(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    // a) mean magnitudes x step sizes around the rounding threshold
    let mags: Vec<f64> = vec![1.0, -1.0, 1.5, 4096.0, 1.0 / 3.0, -7e-5, 3e17, -1e-30, 1.9999999];
    for n in [1usize, 2, 3, 4] {
        for (mi, mag) in mags.iter().cloned().enumerate() {
            js.push(job(format!("rounding n={} mag={}", n, mi), move |ctx| {
                let fine = ctx.tier.pick(26, 120);
                for e in 0..fine {
                    // sigma between 2^-56 and 2^-47 of the magnitude
                    let sigma = mag.abs() * 2f64.powf(-56.5 + 10.0 * e as f64 / fine as f64);
                    // how many coordinates have the large mean
                    for big in 0..(1usize << n) {
                        for (wi, w) in WS.into_iter().enumerate() {
                            for l in [2usize, 5] {
                                if (big + e + wi + l) % 2 == 1 && ctx.tier == Tier::Quick && n > 2 {
                                    continue;
                                }
                                let mean: Vec<f64> = (0..n).map(|i| if big >> i & 1 == 1 { mag } else { mag * 1e-9 }).collect();
                                let cfg = Cfg::quiet(n, l).w(w).at(mean, sigma).seed((e * 7 + big) as u64);
                                let k = [Kind::Index, Kind::Hash(5), Kind::Const(0.0)][(e + big) % 3];
                                let what = format!("{:?} mean {:e} in {:b}, sigma {:e}", k, mag, big, sigma);
                                ctx.sample(|| json!(what));
                                p14_walk(ctx, &cfg, kpol(k), ctx.tier.pick(4, 8), &what);
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    // b) persistent contraction in one coordinate: thresholds cross at different moments for different coordinates and axes
    for n in [1usize, 2, 3, 5] {
        for w in WS {
            js.push(job(format!("contraction n={} w={}", n, wname(w)), move |ctx| {
                for (ki, k) in [Kind::Near, Kind::NearK(0), Kind::NearK(1), Kind::Sphere, Kind::Elli(8.0), Kind::Cigar, Kind::Cycle(false), Kind::Rosen].into_iter().enumerate() {
                    for shift in [0.0, 1.0, 1e6] {
                        for l in [4usize, 9] {
                            let cfg = Cfg::quiet(n, l).w(w).at((0..n).map(|i| shift * (1.0 + i as f64)).collect(), 1e-6 * (1.0 + shift)).seed(ki as u64);
                            p14_walk(ctx, &cfg, kpol(k), ctx.tier.pick(200, 900), &format!("{:?} around {:e}", k, shift));
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // b2) high dimension: every axis has its turn (no refresh happens within the turns: axis i is coordinate i)
    for (n, turns) in [(17usize, 5usize), (33, 9), (40, 11), (70, 18), (100, 26), (150, 38)] {
        js.push(job(format!("turns n={}", n), move |ctx| {
            for k in 0..turns {
                // one huge coordinate; all but one huge
                for flip in [false, true] {
                    let mean: Vec<f64> = (0..n).map(|i| if (i == k) != flip { 1e30 } else { 0.0 }).collect();
                    let cfg = Cfg::quiet(n, 2).w(Weights::Uniform).at(mean, 1.0).seed(k as u64);
                    p14_walk(ctx, &cfg, kpol(Kind::Index), if ctx.tier == Tier::Quick { k + 1 } else { turns + 3 }, &format!("huge {} flip {}", k, flip));
                    if ctx.full() {
                        return;
                    }
                }
            }
        }));
    }
    // b4) coordinates at exactly zero, deviations at the bottom of the number range
    for n in [1usize, 2, 3] {
        js.push(job(format!("zero mean n={}", n), move |ctx| {
            for (si, sigma) in [f64::MIN_POSITIVE, 3e-308, 1e-307, 1e-306, 1e-304, 1e-300].into_iter().enumerate() {
                for big in 0..1usize << n {
                    for (ki, k) in [None, Some(Kind::Index), Some(Kind::Near), Some(Kind::Const(0.0))].into_iter().enumerate() {
                        let mean: Vec<f64> = (0..n).map(|i| if big >> i & 1 == 1 { [1.0, -1e-310, 1e-323][(i + si) % 3] } else { [0.0, -0.0][i % 2] }).collect();
                        let cfg = Cfg::quiet(n, 4 + ki).w(WS[ki % 3]).at(mean, sigma).seed(ki as u64 + 1);
                        let pol = match k {
                            Some(k) => kpol(k),
                            None => Box::new(|q: &Q| q.x.iter().map(|v| v.abs() * 1e300).sum()),
                        };
                        p14_walk(ctx, &cfg, pol, ctx.tier.pick(400, 1500), &format!("{:?} zeros {:b}, sigma {:e}", k, big, sigma));
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }
        }));
    }
    // b3) the same after refreshes, with axes of different lengths
    for n in [9usize, 18, 33] {
        for k in [Kind::Near, Kind::NearK(0), Kind::NearK(n - 1), Kind::Elli(6.0), Kind::Cigar] {
            js.push(job(format!("late turns n={} {:?}", n, k), move |ctx| {
                for seed in 0..ctx.tier.pick(2u64, 10) {
                    let cfg = Cfg::quiet(n, 24).at((0..n).map(|i| 1e3 * (1.0 + i as f64)).collect(), 1e-7).seed(seed);
                    p14_walk(ctx, &cfg, kpol(k), ctx.tier.pick(400, 1500), &format!("late turns {:?} seed {}", k, seed));
                    if ctx.full() {
                        return;
                    }
                }
            }));
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                for (shift, sigma) in [(0.0, 1.0), (1.0, 1e-9), (1e8, 1.0)] {
                    let mut cfg = Cfg::quiet(n, lambda).mode(MODES[ki % 2]).w(WS[(ki + n) % 3]).seed(ki as u64).at((0..n).map(|i| shift * (1.0 + i as f64)).collect(), sigma);
                    cfg.tol_cond = Some([1e14, 3.0, 20.0][ki % 3]);
                    p14_walk(ctx, &cfg, nan_pol(k), gens.min(ctx.tier.pick(200, 600)), &format!("wide {:?} around {:e}", k, shift));
                    if ctx.full() {
                        return;
                    }
                }
            }));
        }
    }
    // c) condition number thresholds
    for n in [1usize, 2, 3, 6] {
        for w in WS {
            js.push(job(format!("condition n={} w={}", n, wname(w)), move |ctx| {
                for (ki, k) in [Kind::FarK(0), Kind::NearK(0), Kind::Elli(6.0), Kind::Cigar, Kind::Hash(3), Kind::Sphere].into_iter().enumerate() {
                    for l in [4usize, 7] {
                        let base = Cfg::quiet(n, l).w(w).seed(ki as u64);
                        let steps = ctx.tier.pick(40, 150);
                        let mut probe = Run::new(&base, kpol(k));
                        let mut qs = vec![1.0];
                        for _ in 0..steps {
                            let st = probe.next();
                            let mx = st.after.eig.iter().cloned().fold(f64::MIN, f64::max);
                            let mn = st.after.eig.iter().cloned().fold(f64::MAX, f64::min);
                            qs.push(mx / mn);
                        }
                        for (i, q) in qs.iter().enumerate() {
                            if i % 3 != 0 && ctx.tier == Tier::Quick {
                                continue;
                            }
                            for f in [1.0 - 1e-6, 1.0 + 1e-6] {
                                let mut cfg = base.clone();
                                cfg.tol_cond = Some(q * f);
                                p14_walk(ctx, &cfg, kpol(k), steps, &format!("{:?} limit {:e}", k, q * f));
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                        // the default limit, over a long time
                        let mut cfg = base.clone();
                        cfg.tol_cond = None;
                        p14_walk(ctx, &cfg, kpol(k), ctx.tier.pick(300, 1500), &format!("{:?} default limit", k));
                    }
                }
            }));
        }
    }
    js
}

// ---------------------------------------------------------------------------------------------

fn td_truth(ctx: &mut Ctx, what: &str, td: &TD, s: &Snap) {
    let ind = |i: &Option<cmaes::Individual>, b: &Option<(Vec<f64>, f64)>| match (i, b) {
        (None, None) => true,
        (Some(i), Some(b)) => bits(i.point.as_slice(), &b.0) && i.value.to_bits() == b.1.to_bits(),
        _ => false,
    };
    if !ind(&td.current_best, &s.cur) || !ind(&td.overall_best, &s.best) {
        ctx.viol("returned-bests", format!("{}: returned {:?}, state {:?} {:?}", what, td, s.cur, s.best));
    }
    if !bits(td.final_mean.as_slice(), &s.mean) {
        ctx.viol("returned-mean", format!("{}: returned mean {:?}, state {:?}", what, td.final_mean, s.mean));
    }
    if td.reasons.is_empty() {
        ctx.viol("no-reason", format!("{}: termination without a reason", what));
    }
    for i in 0..td.reasons.len() {
        if td.reasons[..i].contains(&td.reasons[i]) {
            ctx.viol("duplicate-reason", format!("{}: {:?}", what, td.reasons));
        }
    }
}

/// A run against stepping by hand, with the full verdicts
fn p15_run(ctx: &mut Ctx, cfg: &Cfg, mk: &dyn Fn() -> Pol, cap: usize, what: &str, par: bool) {
    let id = cfg_fp(cfg);
    with_virtual_clock(|| {
        let mut a = Run::new(cfg, mk()).auto();
        let mut t = Term::new(cfg, true);
        let mut last: Option<TD> = None;
        for g in 0..cap {
            let st = if par { a.next_parallel() } else { a.next() };
            fp(ctx, id, &st);
            t.elapsed += 1_000_000 * st.calls.len() as u128;
            let done = t.step(&st);
            if let Some(td) = &st.out {
                td_truth(ctx, what, td, &st.after);
            }
            if done {
                let vs = t.all(&st);
                compare(ctx, what, g, cfg, &st, &vs);
            } else if has(&st.out, TR::PosDefCov) {
                if reasons(&st.out) != vec![TR::PosDefCov] {
                    ctx.viol("posdef-alone", format!("{}: {:?}", what, reasons(&st.out)));
                }
            } else if reasons(&st.out) != vec![TR::InvalidFunctionValue] {
                ctx.viol("invalid-alone", format!("{}: an invalid value gives {:?}", what, reasons(&st.out)));
            }
            if ctx.full() {
                return;
            }
            if st.out.is_some() {
                last = st.out;
                break;
            }
        }
        let Some(td) = last else {
            ctx.count("runs_without_end_within_bound", 1);
            return;
        };
        ctx.count("runs_compared_with_stepping", 1);
        ctx.trace();
        let end = a.last.clone();
        let calls = a.total_calls();
        let td2_end = with_virtual_clock(|| {
            let mut b = Run::new(cfg, mk()).auto();
            let td2 = if par { b.es.run_parallel() } else { b.es.run() };
            (td2, Snap::of(&b.es), b.total_calls())
        });
        let (td2, end2, calls2) = td2_end;
        if td2.reasons != td.reasons {
            ctx.viol("run-reasons", format!("{}: run() gives {:?}, stepping {:?}", what, td2.reasons, td.reasons));
        }
        if !end2.same(&end) || calls2 != calls {
            ctx.viol("run-state", format!("{}: run() ends in generation {} after {} evaluations, stepping in {} after {}", what, end2.gen, calls2, end.gen, calls));
        }
        td_truth(ctx, &format!("{} (run)", what), &td2, &end2);
    });
}

pub fn p15(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    // a) all combinations of enabled criteria
    for n in [1usize, 2, 3] {
        for l in [2usize, 5, 8] {
            for part in 0..4usize {
                js.push(job(format!("combinations n={} lambda={} part={}", n, l, part), move |ctx| {
                    let kinds = [Kind::Sphere, Kind::Const(1.0), Kind::Far, Kind::Ties(1, 2), Kind::Lin(0, true), Kind::NearK(0), Kind::Infs(4), Kind::Hash(2)];
                    for mask in (0..2048usize).filter(|m| m % 4 == part) {
                        for (ki, k) in kinds.into_iter().enumerate() {
                            if ctx.tier == Tier::Quick && (mask / 4 + ki) % 4 != 0 {
                                continue;
                            }
                            let on = |b: usize| mask >> b & 1 == 1;
                            let mut cfg = Cfg::quiet(n, l).seed(mask as u64).w(WS[(mask / 7) % 3]);
                            if ki % 2 == 1 {
                                cfg = cfg.mode(Mode::Maximize);
                            }
                            cfg.max_evals = on(0).then_some(13 * l - 1);
                            cfg.max_gens = Some(if on(1) { 12 } else { 60 });
                            cfg.max_time = on(2).then_some(Duration::from_millis(11 * l as u64));
                            cfg.fun_target = on(3).then_some(if ki == 2 { -20.0 } else { 0.02 });
                            if on(4) {
                                cfg.tol_fun = Some(0.3);
                            }
                            if on(5) {
                                cfg.tol_fun_rel = Some(0.05);
                            }
                            if on(6) {
                                cfg.tol_fun_hist = Some(0.5);
                            }
                            if on(7) {
                                cfg.tol_x = Some(0.15);
                            }
                            if on(8) {
                                cfg.tol_stag = Some(4);
                            }
                            if on(9) {
                                cfg.tol_x_up = Some(5.0);
                            }
                            if on(10) {
                                cfg.tol_cond = Some(30.0);
                            }
                            let what = format!("{:?} mask {:011b}", k, mask);
                            ctx.sample(|| json!(what));
                            let sgn = if cfg.is_max() { -1.0 } else { 1.0 };
                            let mk = move || -> Pol {
                                Box::new(move |q| {
                                    advance_ns(1_000_000);
                                    sgn * kind_value(k, q)
                                })
                            };
                            // (answers by order of evaluation mean nothing in parallel)
                            let par = mask % 16 == 3 && n == 2 && !matches!(k, Kind::Ties(..) | Kind::Infs(_) | Kind::Hash(_));
                            p15_run(ctx, &cfg, &mk, 70, &what, par);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }));
            }
        }
    }
    // every set of criteria that can be met in one and the same generation: the first one, and the first with a full history
    for n in [1usize, 2, 3] {
        for l in [2usize, 5] {
            for first in [true, false] {
                js.push(job(format!("together n={} lambda={} first={}", n, l, first), move |ctx| {
                    let window = 10 + (30.0 * n as f64 / l as f64).ceil() as usize;
                    let g = if first { 1 } else { window + 1 };
                    for mask in 0..256usize {
                        for mode in MODES {
                            let on = |b: usize| mask >> b & 1 == 1;
                            if !first && on(7) {
                                continue;
                            }
                            let mut cfg = Cfg::quiet(n, l).seed(mask as u64).w(WS[mask % 3]).mode(mode);
                            let sgn = if cfg.is_max() { -1.0 } else { 1.0 };
                            cfg.max_evals = on(0).then_some(g * l);
                            cfg.max_gens = Some(if on(1) { g } else { g + 3 });
                            cfg.max_time = on(2).then_some(Duration::from_millis((g * l) as u64));
                            cfg.fun_target = on(3).then_some(sgn * 0.9);
                            if first {
                                cfg.tol_x = on(4).then_some(1e200);
                                if on(5) {
                                    cfg.tol_cond = Some(0.5);
                                }
                                if on(6) {
                                    cfg.tol_x_up = Some(1e-30);
                                }
                                if on(7) {
                                    // no step has an effect on such a mean
                                    cfg.mean = vec![1e18; n];
                                }
                            } else {
                                if on(4) {
                                    cfg.tol_fun = Some(0.3);
                                }
                                if on(5) {
                                    cfg.tol_fun_rel = Some(0.05);
                                }
                                if on(6) {
                                    cfg.tol_fun_hist = Some(0.3);
                                }
                            }
                            let mk = move || -> Pol {
                                let mut c = 0usize;
                                Box::new(move |_| {
                                    advance_ns(1_000_000);
                                    c += 1;
                                    // (a bad first generation, the target in the last one)
                                    sgn * if c > (g - 1) * l && c % l == 1 {
                                        0.9
                                    } else if c <= l {
                                        100.0
                                    } else {
                                        1.0
                                    }
                                })
                            };
                            let what = format!("together {:?} generation {} mask {:08b}", mode, g, mask);
                            ctx.sample(|| json!(what));
                            p15_run(ctx, &cfg, &mk, g + 5, &what, false);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }));
            }
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                for par in [false, true] {
                    // (answers by order of evaluation mean nothing in parallel)
                    if par && !matches!(k, Kind::Sphere | Kind::Elli(_) | Kind::Const(_)) {
                        continue;
                    }
                    for nan in [false, true] {
                        // (how many of the other points are still evaluated in parallel is open)
                        if par && nan {
                            continue;
                        }
                        for end in [gens / 2, gens] {
                            let mut cfg = Cfg::quiet(n, lambda).mode(MODES[ki % 2]).w(WS[(ki + n) % 3]);
                            cfg.max_gens = Some(end);
                            cfg.max_evals = Some((end + end % 2) * lambda);
                            cfg.max_time = Some(Duration::from_millis((end * lambda) as u64 - (end % 3) as u64));
                            let sgn = if cfg.is_max() { -1.0 } else { 1.0 };
                            let total = end * lambda;
                            let mk = move || -> Pol {
                                let mut c = 0usize;
                                Box::new(move |q| {
                                    advance_ns(1_000_000);
                                    c += 1;
                                    if nan && c == total - 1 {
                                        return f64::NAN;
                                    }
                                    sgn * kind_value(k, q)
                                })
                            };
                            p15_run(ctx, &cfg, &mk, end + 5, &format!("wide {:?} end={} nan={} par={}", k, end, nan, par), par);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // b) defaults on landscapes, invalid values at every moment
    for n in [1usize, 2, 4, 7] {
        for w in WS {
            js.push(job(format!("defaults n={} w={}", n, wname(w)), move |ctx| {
                for (ki, k) in all_kinds().into_iter().enumerate() {
                    for sigma in [1.0, 1e-9, 1e5] {
                        for nan in [None, Some(3usize), Some(40)] {
                            let mut cfg = Cfg::new((0..n).map(|i| 0.5 * i as f64 - 1.0).collect(), sigma).w(w).seed(ki as u64);
                            if ki % 2 == 1 {
                                cfg = cfg.mode(Mode::Maximize);
                            }
                            cfg.max_gens = Some(ctx.tier.pick(500, 3000));
                            let sgn = if cfg.is_max() { -1.0 } else { 1.0 };
                            let mk = move || -> Pol {
                                Box::new(move |q| {
                                    advance_ns(1_000_000);
                                    if Some(q.step) == nan && q.idx == q.step % 4 {
                                        return f64::NAN;
                                    }
                                    let v = sgn * kind_value(k, q);
                                    if v.is_nan() {
                                        0.0
                                    } else {
                                        v
                                    }
                                })
                            };
                            p15_run(ctx, &cfg, &mk, 5000, &format!("{:?} sigma={:e} nan={:?}", k, sigma, nan), false);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    let _ = tier;
    js
}
