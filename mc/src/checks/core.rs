//! P01 best tracking, P02 accounting, P03 invalid values.

use crate::rt::*;
use crate::sim::*;
use cmaes::{Mode, Weights};
use serde_json::json;

fn better(max: bool, a: f64, b: f64) -> bool {
    if max {
        a > b
    } else {
        a < b
    }
}

/// Tracks the best of all completed generations
pub struct Bests {
    pub max: bool,
    pub seen: Vec<(Vec<f64>, f64)>,
    pub best: Option<f64>,
}

impl Bests {
    pub fn new(max: bool) -> Bests {
        Bests { max, seen: vec![], best: None }
    }

    fn td_ok(ctx: &mut Ctx, what: &str, st: &Step) {
        if let Some(td) = &st.out {
            let same = |a: &Option<cmaes::Individual>, b: &Option<(Vec<f64>, f64)>| match (a, b) {
                (None, None) => true,
                (Some(a), Some(b)) => bits(a.point.as_slice(), &b.0) && a.value.to_bits() == b.1.to_bits(),
                _ => false,
            };
            if !same(&td.current_best, &st.after.cur) || !same(&td.overall_best, &st.after.best) {
                ctx.viol("result-bests", format!("{}: the returned individuals differ from the reported ones: {:?} / {:?}, {:?}", what, td, st.after.cur, st.after.best));
            }
        }
    }

    /// Checks a step
    pub fn step(&mut self, ctx: &mut Ctx, what: &str, st: &Step) {
        Self::td_ok(ctx, what, st);
        let nan = st.calls.iter().any(|c| c.f.is_nan());
        if nan {
            if !st.after.same_bests(&st.before) {
                ctx.viol("best-changed-by-invalid", format!("{}: a generation aborted by NaN changed the best individuals: {:?} -> {:?}", what, (&st.before.cur, &st.before.best), (&st.after.cur, &st.after.best)));
            }
            return;
        }
        let posdef = has(&st.out, TR::PosDefCov);
        let Some(cur) = &st.after.cur else {
            ctx.viol("no-current-best", format!("{}: no current best after a completed generation", what));
            return;
        };
        let Some(best) = &st.after.best else {
            ctx.viol("no-overall-best", format!("{}: no overall best after a completed generation", what));
            return;
        };
        let gen_best = st.calls.iter().map(|c| c.f).fold(None, |b: Option<f64>, f| match b {
            Some(b) if !better(self.max, f, b) => Some(b),
            _ => Some(f),
        });
        let matches = |p: &(Vec<f64>, f64), x: &[f64], f: f64| bits(&p.0, x) && p.1.to_bits() == f.to_bits();
        if !posdef || !st.after.same_bests(&st.before) {
            if !st.calls.iter().any(|c| matches(cur, &c.x, c.f)) {
                ctx.viol("current-best-not-evaluated", format!("{}: current best {:?} is no evaluated point of the generation {:?}", what, cur, st.calls));
            }
            if better(self.max, gen_best.unwrap(), cur.1) {
                ctx.viol("current-best-not-best", format!("{}: current best {:e} but {:e} was evaluated", what, cur.1, gen_best.unwrap()));
            }
            if self.best.map_or(true, |b| better(self.max, gen_best.unwrap(), b)) {
                self.best = gen_best;
            }
            for c in &st.calls {
                if Some(c.f) == self.best {
                    if self.seen.len() > 64 {
                        let b = self.best.unwrap();
                        self.seen.retain(|s| s.1 == b);
                        self.seen.truncate(64);
                    }
                    self.seen.push((c.x.clone(), c.f));
                }
            }
        }
        let b = self.best.unwrap();
        if best.1 != b {
            ctx.viol("overall-best-wrong", format!("{}: overall best is {:e}, best value so far is {:e}", what, best.1, b));
        } else if !self.seen.iter().any(|s| bits(&s.0, &best.0) && s.1.to_bits() == best.1.to_bits()) && self.seen.len() < 60 {
            ctx.viol("overall-best-not-evaluated", format!("{}: overall best {:?} was never evaluated to that value", what, best));
        }
        if let Some(pb) = &st.before.best {
            if better(self.max, pb.1, best.1) {
                ctx.viol("overall-best-worse", format!("{}: overall best got worse {:e} -> {:e}", what, pb.1, best.1));
            }
        }
    }
}

pub fn fp_step(ctx: &mut Ctx, cfgid: u64, st: &Step) {
    let mut f = Fp(cfgid);
    st.after.fp(&mut f);
    ctx.state(f.0);
    ctx.trans(1);
}

pub fn cfg_fp(c: &Cfg) -> u64 {
    let mut f = Fp::new("cfg");
    f.s(&format!("{:?}", c));
    f.0
}

fn p01_walk(ctx: &mut Ctx, cfg: &Cfg, pol: Pol, steps: usize, par: bool, what: &str) {
    let id = cfg_fp(cfg);
    let mut r = Run::new(cfg, pol);
    if r.last.cur.is_some() || r.last.best.is_some() {
        ctx.viol("best-before-start", format!("{}: a best individual is reported before any generation", what));
    }
    let mut b = Bests::new(cfg.is_max());
    for _ in 0..steps {
        let st = if par { r.next_parallel() } else { r.next() };
        b.step(ctx, what, &st);
        fp_step(ctx, id, &st);
        if ctx.full() {
            return;
        }
    }
    ctx.trace();
}

/// all words over an alphabet for one generation
pub fn words(alpha: &[f64], lambda: usize) -> Vec<Vec<f64>> {
    sequences(alpha.len(), lambda)
        .into_iter()
        .map(|s| s.into_iter().map(|i| alpha[i]).collect())
        .collect()
}

pub fn p01(tier: Tier) -> Vec<Job> {
    let inf = f64::INFINITY;
    let mut js = vec![];
    // a) all answer words over an alphabet, all sequences to a depth
    let mut menus: Vec<(usize, Vec<f64>, usize)> = vec![
        (2, vec![-inf, -1.0, -0.0, 0.0, 1.0, inf, f64::MAX, 5e-324], 2),
        (2, vec![-inf, 0.0, 1.0, inf], 3),
        (3, vec![-1.0, 0.0, 1.0], 3),
        (3, vec![-inf, -0.0, 0.0, inf], 2),
        (4, vec![0.0, 1.0, 2.0], 2),
        (5, vec![0.0, 1.0], 2),
    ];
    if tier == Tier::Thorough {
        menus.push((2, vec![-inf, -1.0, -0.0, 0.0, 1.0, inf, f64::MAX, 5e-324], 3));
        menus.push((2, vec![-inf, -1.0, 0.0, 1.0, inf], 4));
        menus.push((3, vec![-1.0, 0.0, 1.0], 4));
        menus.push((4, vec![0.0, 1.0, 2.0], 3));
        menus.push((6, vec![0.0, 1.0], 3));
    }
    for (mi, (lambda, alpha, depth)) in menus.into_iter().enumerate() {
        for mode in MODES {
            let ws = words(&alpha, lambda);
            let nw = ws.len();
            // one job per first word chunk
            let chunk = (nw / 8).max(1);
            for (ci, first) in (0..nw).collect::<Vec<_>>().chunks(chunk).enumerate() {
                let first = first.to_vec();
                let ws = ws.clone();
                let cfg = Cfg::quiet(2, lambda).mode(mode);
                js.push(job(format!("words menu={} lambda={} mode={} chunk={}", mi, lambda, mname(mode), ci), move |ctx| {
                    for &f in &first {
                        for rest in sequences(nw, depth - 1) {
                            let mut seq = vec![ws[f].clone()];
                            seq.extend(rest.iter().map(|&i| ws[i].clone()));
                            let s2 = seq.clone();
                            ctx.sample(|| json!({"answers": format!("{:?}", s2)}));
                            let what = format!("{:?}", seq);
                            p01_walk(ctx, &cfg, wpol(seq), depth, false, &what);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }));
            }
        }
    }
    // b) longer histories: the generation's best is better / equal / worse than the best so far, at each position in the generation
    let len = tier.pick(7, 9);
    for mode in MODES {
        for lambda in [2usize, 5, 7] {
            for first in 0..3 {
                let cfg = Cfg::quiet(3, lambda).mode(mode);
                js.push(job(format!("trend lambda={} mode={} first={}", lambda, mname(mode), first), move |ctx| {
                    let sgn = if mode == Mode::Maximize { -1.0 } else { 1.0 };
                    for rest in sequences(3, len - 1) {
                        let mut best = 0.0;
                        let mut seq = vec![];
                        for (g, t) in std::iter::once(first).chain(rest.iter().cloned()).enumerate() {
                            let v = match t {
                                0 => best - 1.0,
                                1 => best,
                                _ => best + 0.5,
                            };
                            if v < best {
                                best = v;
                            }
                            let pos = g % lambda;
                            seq.push((0..lambda).map(|i| sgn * (v + ((i + lambda - pos) % lambda) as f64)).collect::<Vec<f64>>());
                        }
                        let what = format!("{:?}{:?}", first, rest);
                        p01_walk(ctx, &cfg, wpol(seq), len, false, &what);
                        if ctx.full() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // c) configuration lattice x landscapes, sequential and parallel evaluation, with the default limits on and off
    for n in [1usize, 2, 5, 12] {
        for lambda in [2usize, 3, 6, 13, 40] {
            for mode in MODES {
                js.push(job(format!("lattice n={} lambda={} mode={}", n, lambda, mname(mode)), move |ctx| {
                    for k in all_kinds() {
                        for par in [false, true] {
                            let steps = if par { 6 } else { ctx.tier.pick(25, 120) };
                            let mut cfg = Cfg::quiet(n, lambda).mode(mode).w(WS[(n + lambda) % 3]);
                            cfg.mean = (0..n).map(|i| i as f64 - 0.5).collect();
                            let what = format!("{:?} par={}", k, par);
                            p01_walk(ctx, &cfg, kpol(k), steps, par, &what);
                        }
                        // whole runs with the default limits: the result is the best of the run
                        for par in [false, true] {
                            let mut cfg = Cfg::new((0..n).map(|i| i as f64 - 0.5).collect(), 0.7).lam(lambda).mode(mode);
                            cfg.max_gens = Some(if par { 15 } else { 400 });
                            let mut r = Run::new(&cfg, kpol(k));
                            let td = if par { r.es.run_parallel() } else { r.es.run() };
                            let s = Snap::of(&r.es);
                            let calls = std::mem::take(&mut r.obj.0.lock().unwrap().calls);
                            ctx.trans(s.gen as u64);
                            ctx.trace();
                            let max = cfg.is_max();
                            let mut best = calls[0].f;
                            for c in &calls {
                                if better(max, c.f, best) {
                                    best = c.f;
                                }
                            }
                            let what = format!("{:?} par={} whole run", k, par);
                            match &td.overall_best {
                                Some(i) if i.value == best && calls.iter().any(|c| bits(&c.x, i.point.as_slice()) && c.f.to_bits() == i.value.to_bits()) => {}
                                o => ctx.viol("run-overall-best", format!("{}: run returned {:?}, best evaluated {:e}", what, o, best)),
                            }
                            let lastgen = &calls[calls.len().saturating_sub(lambda)..];
                            let mut lb = lastgen[0].f;
                            for c in lastgen {
                                if better(max, c.f, lb) {
                                    lb = c.f;
                                }
                            }
                            match &td.current_best {
                                Some(i) if i.value == lb && lastgen.iter().any(|c| bits(&c.x, i.point.as_slice()) && c.f.to_bits() == i.value.to_bits()) => {}
                                o => ctx.viol("run-current-best", format!("{}: run returned current best {:?}, best of the last generation {:e}", what, o, lb)),
                            }
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }));
            }
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                let mode = MODES[ki % 2];
                let cfg = Cfg::quiet(n, lambda).mode(mode).w(WS[(ki + n) % 3]);
                for nans in [false, true] {
                    for par in [false, true] {
                        let pol = if nans { nan_pol(k) } else { kpol(k) };
                        let g = if par { gens / 4 } else { gens };
                        p01_walk(ctx, &cfg, pol, g, par, &format!("wide {:?} nans={} par={}", k, nans, par));
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // step sizes over the whole range of valid ones: distances and coordinates overflow or underflow
    for (si, sigma) in SCALES.into_iter().enumerate() {
        for n in [1usize, 3] {
            js.push(job(format!("scale sigma={:e} n={}", sigma, n), move |ctx| {
                for (ki, k) in scale_kinds().into_iter().enumerate() {
                    for lambda in [2usize, 5, 8] {
                        for mean in [0.0, sigma / 2.0, -1.0] {
                            for par in [false, true] {
                                let cfg = Cfg::quiet(n, lambda).at(vec![mean; n], sigma).mode(MODES[(ki + si) % 2]).w(WS[(ki + n) % 3]).seed(ki as u64);
                                let g = if par { 12 } else { ctx.tier.pick(60, 400) };
                                let what = format!("scale {:?} sigma={:e} mean={:e} par={}", k, sigma, mean, par);
                                p01_walk(ctx, &cfg, Box::new(move |q| {
                                    let v = kind_value(k, q);
                                    if v.is_nan() { f64::INFINITY } else { v }
                                }), g, par, &what);
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    // d) a long history, beyond the length of the value histories
    for mode in MODES {
        js.push(job(format!("long mode={}", mname(mode)), move |ctx| {
            let cfg = Cfg::quiet(2, 2).mode(mode);
            let sgn = if mode == Mode::Maximize { -1.0 } else { 1.0 };
            let total = 20_400usize;
            // improves only at a few moments far apart, each time at another place of the generation
            let mut r = Run::new(&cfg, Box::new(move |q| {
                let lvl = [0usize, 7, 150, 19_999, 20_000, 20_003, 20_390].iter().filter(|&&s| q.step >= s).count() as f64;
                let at = [0usize, 7, 150, 19_999, 20_000, 20_003, 20_390].contains(&q.step);
                if at && q.idx == q.step % 2 {
                    sgn * -lvl
                } else {
                    sgn * (10.0 + hash01(3, (q.step * 2 + q.idx) as u64))
                }
            }));
            let mut b = Bests::new(cfg.is_max());
            for _ in 0..total {
                let st = r.next();
                b.step(ctx, "long", &st);
                ctx.trans(1);
                if ctx.full() {
                    return;
                }
            }
            ctx.trace();
        }));
    }
    js
}

// ---------------------------------------------------------------------------------------------

fn p02_step(ctx: &mut Ctx, what: &str, cfg: &Cfg, st: &Step, total: &mut usize, seq: bool) {
    let lambda = cfg.lambda();
    *total += st.calls.len();
    if st.after.evals != *total {
        ctx.viol("eval-count", format!("{}: {} evaluations reported, {} made", what, st.after.evals, total));
    }
    let nan = st.calls.iter().position(|c| c.f.is_nan());
    match nan {
        None => {
            if st.calls.len() != lambda {
                ctx.viol("calls-per-generation", format!("{}: {} calls in a generation of {}", what, st.calls.len(), lambda));
            }
        }
        Some(i) => {
            // evaluation may stop early after an invalid value, but never calls more than once per point
            if st.calls.len() > lambda || (seq && st.calls.len() <= i) {
                ctx.viol("calls-per-generation", format!("{}: {} calls in an aborted generation of {}", what, st.calls.len(), lambda));
            }
        }
    }
    // no point twice
    for i in 0..st.calls.len() {
        for j in 0..i {
            if bits(&st.calls[i].x, &st.calls[j].x) && st.before.finite() && st.before.sigma > 1e-200 {
                // (not where the deviations are so small that rounding makes points coincide)
                let m = crate::la::max_abs(&st.before.mean);
                let dev = st.before.sigma * st.before.eig.iter().cloned().fold(0.0, f64::max).sqrt();
                if dev > 1e-7 * m && dev.is_normal() {
                    ctx.viol("point-twice", format!("{}: the same point was evaluated twice: {:?}", what, st.calls[i].x));
                }
            }
        }
    }
    let inc = if nan.is_some() || has(&st.out, TR::PosDefCov) { 0 } else { 1 };
    if st.after.gen != st.before.gen + inc {
        ctx.viol("generation-count", format!("{}: generation {} -> {} in a step with reasons {:?}", what, st.before.gen, st.after.gen, reasons(&st.out)));
    }
}

fn p02_walk(ctx: &mut Ctx, cfg: &Cfg, pol: Pol, steps: usize, par: bool, what: &str) {
    let id = cfg_fp(cfg);
    let mut r = Run::new(cfg, pol);
    let mut total = 0;
    if r.last.evals != 0 || r.last.gen != 0 || r.total_calls() != 0 {
        ctx.viol("initial-counts", format!("{}: counts are not zero initially", what));
    }
    for _ in 0..steps {
        let st = if par { r.next_parallel() } else { r.next() };
        p02_step(ctx, what, cfg, &st, &mut total, !par);
        // observers must not evaluate
        let before = r.total_calls();
        r.es.print_initial_info();
        r.es.print_info();
        r.es.print_final_info(&[]);
        r.es.add_plot_point();
        let _ = (r.es.axis_ratio(), r.es.elapsed(), r.es.parameters().lambda(), r.es.generations_per_eigen_update());
        if let Some(p) = r.es.get_mut_plot() {
            p.clear();
        }
        if r.total_calls() != before || r.es.function_evals() != st.after.evals {
            ctx.viol("observer-evaluates", format!("{}: an observer called the objective", what));
        }
        fp_step(ctx, id, &st);
        if ctx.full() {
            return;
        }
    }
    ctx.trace();
}

pub fn p02(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    // a) every position of invalid answers over generations
    for lambda in [2usize, 3, 4] {
        for mode in MODES {
            for par in [false, true] {
                let depth = if lambda == 4 { 3 } else { tier.pick(3, 4) };
                js.push(job(format!("nan-placement lambda={} mode={} par={}", lambda, mname(mode), par), move |ctx| {
                    let masks = 1usize << lambda;
                    for seq in sequences(masks, depth) {
                        let cfg = Cfg::quiet(2, lambda).mode(mode);
                        let ws: Vec<Vec<f64>> = seq
                            .iter()
                            .map(|m| (0..lambda).map(|i| if m >> i & 1 == 1 { f64::NAN } else { i as f64 }).collect())
                            .collect();
                        let what = format!("{:?}", seq);
                        ctx.sample(|| json!({"nan_masks": seq}));
                        p02_walk(ctx, &cfg, wpol(ws), depth, par, &what);
                        if ctx.full() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // c) generations that end because the covariance lost its definiteness are not completed
    for n in [2usize, 3, 4] {
        for w in WS {
            js.push(job(format!("lost definiteness n={} w={}", n, wname(w)), move |ctx| {
                for (ki, kind) in [Kind::Ridge, Kind::Elli(24.0), Kind::Elli(32.0)].into_iter().enumerate() {
                    for lambda in [4usize, 7, 12] {
                        for seed in 0..ctx.tier.pick(2u64, 8) {
                            let cfg = Cfg::quiet(n, lambda).at(vec![1.0; n], 1.0).w(w).seed(seed);
                            let what = format!("{:?} lambda={} seed={}", kind, lambda, seed);
                            let mut r = Run::new(&cfg, kpol(kind));
                            let mut total = 0;
                            let mut left = 4;
                            for g in 0..ctx.tier.pick(1200, 4000) {
                                let st = if (g + ki) % 5 == 0 { r.next_parallel() } else { r.next() };
                                p02_step(ctx, &what, &cfg, &st, &mut total, (g + ki) % 5 != 0);
                                if has(&st.out, TR::PosDefCov) {
                                    ctx.count("generations_without_definite_covariance", 1);
                                    fp_step(ctx, cfg_fp(&cfg), &st);
                                    left -= 1;
                                }
                                if left == 0 || ctx.full() || !st.after.sigma.is_normal() {
                                    break;
                                }
                            }
                            ctx.trace();
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // b) population x dimension grid, with constraints, plotting, printing
    let lams: Vec<usize> = tier.pick(vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 64, 127], (2..=70).chain([127, 128, 255, 500]).collect());
    for n in [1usize, 2, 3, 7, 10, 20] {
        for &lambda in &lams {
            js.push(job(format!("grid n={} lambda={}", n, lambda), move |ctx| {
                for par in [false, true] {
                    for (ci, cons) in [None, Some(0usize), Some(1), Some(3)].into_iter().enumerate() {
                        for extra in 0..3 {
                            let mut cfg = Cfg::quiet(n, lambda).w(WS[(n + lambda + ci) % 3]);
                            if ci > 0 {
                                cfg.constraints = Some(Box::new(cmaes::Bounds { lower: vec![-1.5; n], upper: vec![0.5; n] }));
                                cfg.max_resamples = Some(cons);
                            }
                            if extra == 1 {
                                cfg.print = Some(lambda * 2);
                                cfg.plot = Some((lambda * 2, false));
                            }
                            if extra == 2 {
                                cfg.par_update = Some(true);
                            }
                            let what = format!("par={} cons={:?} extra={}", par, cons, extra);
                            p02_walk(ctx, &cfg, kpol(Kind::Hash(5)), 4, par, &what);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                let mode = MODES[ki % 2];
                let cfg = Cfg::quiet(n, lambda).mode(mode).w(WS[(ki + n) % 3]);
                for nans in [false, true] {
                    for par in [false, true] {
                        let pol = if nans { nan_pol(k) } else { kpol(k) };
                        let g = if par { gens / 4 } else { gens };
                        p02_walk(ctx, &cfg, pol, g, par, &format!("wide {:?} nans={} par={}", k, nans, par));
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // c) whole runs: counts at the end equal the calls, run and run_parallel
    for n in [1usize, 2, 4] {
        for (ki, k) in all_kinds().into_iter().enumerate() {
            js.push(job(format!("runs n={} kind={}", n, ki), move |ctx| {
                for lambda in [2usize, 4, 9] {
                    for par in [false, true] {
                        for (pi, nan_at) in [None, Some(0usize), Some(lambda * 3 + 1), Some(lambda * 4 - 1)].into_iter().enumerate() {
                            let mut cfg = Cfg::new(vec![0.3; n], 0.5).lam(lambda);
                            cfg.max_gens = Some(if par { 12 } else { 60 });
                            if pi == 1 {
                                cfg.plot = Some((0, false));
                                cfg.print = Some(1);
                            }
                            let cnt = std::sync::atomic::AtomicUsize::new(0);
                            let mut r = Run::new(&cfg, Box::new(move |q| {
                                let c = cnt.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                if Some(c) == nan_at {
                                    f64::NAN
                                } else {
                                    kind_value(k, q)
                                }
                            }));
                            let td = if par { r.es.run_parallel() } else { r.es.run() };
                            let calls = r.total_calls();
                            ctx.trans(r.es.generation() as u64);
                            ctx.trace();
                            if r.es.function_evals() != calls {
                                ctx.viol("eval-count", format!("run {:?} par={} nan={:?}: {} reported, {} made", k, par, nan_at, r.es.function_evals(), calls));
                            }
                            let full = r.es.generation() * lambda;
                            let extra = calls as i64 - full as i64;
                            let aborted = td.reasons.contains(&TR::InvalidFunctionValue) || td.reasons.contains(&TR::PosDefCov);
                            if (!aborted && extra != 0) || extra < 0 || extra > lambda as i64 {
                                ctx.viol("generation-count", format!("run {:?} par={}: {} generations of {} and {} calls", k, par, r.es.generation(), lambda, calls));
                            }
                        }
                    }
                }
            }));
        }
    }
    js
}

// ---------------------------------------------------------------------------------------------

fn fbits(x: &[f64]) -> Vec<u64> {
    x.iter().map(|v| if v.is_nan() { f64::NAN.to_bits() } else { v.to_bits() }).collect()
}

fn p03_step(ctx: &mut Ctx, what: &str, st: &Step) {
    let nan = st.calls.iter().any(|c| c.f.is_nan());
    let rs = reasons(&st.out);
    if nan {
        if rs != vec![TR::InvalidFunctionValue] {
            ctx.viol("nan-reason", format!("{}: NaN was returned but the reasons are {:?}", what, rs));
        }
        if !st.after.same_dist(&st.before) {
            ctx.viol("nan-state", format!("{}: a generation aborted by NaN changed the distribution: {:?} -> {:?}", what, st.before, st.after));
        }
        if !st.after.same_bests(&st.before) {
            ctx.viol("nan-bests", format!("{}: a generation aborted by NaN changed the best individuals", what));
        }
        if let Some(td) = &st.out {
            let ok = bits(td.final_mean.as_slice(), &st.before.mean)
                && td.current_best.as_ref().map(|i| (fbits(i.point.as_slice()), i.value.to_bits())) == st.before.cur.as_ref().map(|b| (fbits(&b.0), b.1.to_bits()))
                && td.overall_best.as_ref().map(|i| (fbits(i.point.as_slice()), i.value.to_bits())) == st.before.best.as_ref().map(|b| (fbits(&b.0), b.1.to_bits()));
            if !ok {
                ctx.viol("nan-result", format!("{}: the result of an aborted generation does not report the state before it: {:?}", what, td));
            }
        }
    } else if rs.contains(&TR::InvalidFunctionValue) {
        ctx.viol("spurious-invalid", format!("{}: InvalidFunctionValue without NaN: {:?}", what, st.calls.iter().map(|c| c.f).collect::<Vec<_>>()));
    }
    for b in [&st.after.cur, &st.after.best] {
        if b.as_ref().map_or(false, |b| b.1.is_nan()) {
            ctx.viol("nan-best", format!("{}: NaN reported as best value", what));
        }
    }
}

/// Runs a history with NaN masks. A second optimiser continues after each aborted generation and must keep on working.
fn p03_walk(ctx: &mut Ctx, cfg: &Cfg, words: Vec<Vec<f64>>, par: bool, what: &str) {
    let d = words.len();
    p03_pol(ctx, cfg, wpol(words), d, par, what)
}

fn p03_pol(ctx: &mut Ctx, cfg: &Cfg, pol: Pol, d: usize, par: bool, what: &str) {
    let id = cfg_fp(cfg);
    let mut r = Run::new(cfg, pol);
    for _ in 0..d {
        let st = if par { r.next_parallel() } else { r.next() };
        p03_step(ctx, what, &st);
        // stepping again continues from the unchanged distribution: all points are within a plausible distance
        let nrm = st.calls.iter().flat_map(|c| c.x.iter().zip(&st.before.mean).map(|(x, m)| ((x - m) / st.before.sigma).abs())).fold(0.0, f64::max);
        let mxe = st.before.eig.iter().cloned().fold(0.0, f64::max).sqrt();
        let finite = st.calls.iter().all(|c| c.x.iter().all(|v| v.is_finite())) && st.before.mean.iter().chain(&st.before.eig).all(|v| v.is_finite()) && st.before.sigma.is_finite();
        if finite && st.before.sigma > 1e-290 && nrm.is_finite() && !(nrm <= 9.0 * mxe) {
            ctx.viol("continue", format!("{}: points are {} standard deviations away from the reported distribution", what, nrm / mxe));
        }
        fp_step(ctx, id, &st);
        if ctx.full() {
            return;
        }
    }
    ctx.trace();
}

pub fn p03(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    let nans = [f64::NAN, -f64::NAN, f64::from_bits(0x7ff0000000000001), f64::from_bits(0xfff8000000000123)];
    for lambda in [2usize, 3, 4] {
        for mode in MODES {
            for par in [false, true] {
                for n in [1usize, 2] {
                    let depth = if lambda == 2 { tier.pick(4, 6) } else if lambda == 3 { tier.pick(3, 4) } else { tier.pick(2, 3) };
                    js.push(job(format!("masks lambda={} n={} mode={} par={}", lambda, n, mname(mode), par), move |ctx| {
                        for (k, seq) in sequences(1 << lambda, depth).into_iter().enumerate() {
                            let cfg = Cfg::quiet(n, lambda).mode(mode);
                            let ws: Vec<Vec<f64>> = seq
                                .iter()
                                .enumerate()
                                .map(|(g, m)| {
                                    (0..lambda)
                                        .map(|i| if m >> i & 1 == 1 { nans[(k + g + i) % 4] } else { [3.0, f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e308][(i + g + k) % 5] })
                                        .collect()
                                })
                                .collect();
                            let what = format!("masks {:?}", seq);
                            ctx.sample(|| json!({"nan_masks": seq}));
                            p03_walk(ctx, &cfg, ws, par, &what);
                            if ctx.full() {
                                return;
                            }
                        }
                    }));
                }
            }
        }
    }
    // a single invalid value at every (generation, position) of longer histories in many configurations
    for n in [1usize, 2, 5, 10] {
        for lambda in [2usize, 5, 8, 21] {
            for par in [false, true] {
                js.push(job(format!("single n={} lambda={} par={}", n, lambda, par), move |ctx| {
                    let gens = if par { 4 } else { ctx.tier.pick(10, 24) };
                    for mode in MODES {
                        for g in 0..gens {
                            let step = if par && lambda > 8 { 5 } else { 1 };
                            for p in (0..lambda).step_by(step) {
                                let cfg = Cfg::quiet(n, lambda).mode(mode).w(WS[(g + p) % 3]);
                                let ws: Vec<Vec<f64>> = (0..g + 2)
                                    .map(|s| (0..lambda).map(|i| if s == g && i == p { nans[p % 4] } else { hash01(9, (s * 100 + i) as u64) }).collect())
                                    .collect();
                                p03_walk(ctx, &cfg, ws, par, &format!("nan at generation {} position {}", g, p));
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }));
            }
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                let mode = MODES[ki % 2];
                let cfg = Cfg::quiet(n, lambda).mode(mode).w(WS[(ki + n) % 3]);
                for nans in [false, true] {
                    for par in [false, true] {
                        let pol = if nans { nan_pol(k) } else { kpol(k) };
                        let g = if par { gens / 4 } else { gens };
                        p03_pol(ctx, &cfg, pol, g, par, &format!("wide {:?} nans={} par={}", k, nans, par));
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // step sizes over the whole range of valid ones: distances and coordinates overflow or underflow
    for (si, sigma) in SCALES.into_iter().enumerate() {
        for n in [1usize, 3] {
            js.push(job(format!("scale sigma={:e} n={}", sigma, n), move |ctx| {
                for (ki, k) in scale_kinds().into_iter().enumerate() {
                    for lambda in [2usize, 5, 8] {
                        for mean in [0.0, sigma / 2.0, -1.0] {
                            for par in [false, true] {
                                let cfg = Cfg::quiet(n, lambda).at(vec![mean; n], sigma).mode(MODES[(ki + si) % 2]).w(WS[(ki + n) % 3]).seed(ki as u64);
                                let g = if par { 12 } else { ctx.tier.pick(60, 400) };
                                let what = format!("scale {:?} sigma={:e} mean={:e} par={}", k, sigma, mean, par);
                                let over: Pol = Box::new(|q| q.x.iter().map(|v| v - v).sum::<f64>() + q.x[0].signum());
                                p03_pol(ctx, &cfg, over, g, par, &what);
                                p03_pol(ctx, &cfg, Box::new(move |q| kind_value(k, q)), g, par, &what);
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }));
        }
    }
    // one invalid value in every single generation of a long history in turn (each a history of its own), and invalid
    // values in runs of consecutive generations
    for par in [false, true] {
        for (n, lambda) in [(1usize, 2usize), (2, 4), (3, 7)] {
            let last = tier.pick(140, 420);
            for part in 0..4usize {
                js.push(job(format!("late n={} lambda={} par={} part={}", n, lambda, par, part), move |ctx| {
                    for at in (0..last).filter(|a| a % 4 == part) {
                        for (ri, run) in [1usize, 3].into_iter().enumerate() {
                            let cfg = Cfg::quiet(n, lambda).mode(MODES[(at + ri) % 2]);
                            let pos = at % lambda;
                            let pol: Pol = Box::new(move |q| {
                                if q.step >= at && q.step < at + run && q.idx == pos {
                                    nans[at % 4]
                                } else {
                                    q.x.iter().map(|v| v * v).sum()
                                }
                            });
                            p03_pol(ctx, &cfg, pol, at + run + 1, par, &format!("nan at generation {} for {} generations, position {}", at, run, pos));
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }));
            }
        }
    }
    // whole runs ended by an invalid value late
    for par in [false, true] {
        js.push(job(format!("late-runs par={}", par), move |ctx| {
            for lambda in [3usize, 6] {
                for at in (0..ctx.tier.pick(160, 400)).step_by(7) {
                    for pos in [0, lambda - 1] {
                        let mut cfg = Cfg::quiet(2, lambda);
                        cfg.max_gens = Some(1000);
                        let idx = at * lambda + pos;
                        let cnt = std::sync::atomic::AtomicUsize::new(0);
                        let mut r = Run::new(&cfg, Box::new(move |q| {
                            if cnt.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == idx {
                                f64::NAN
                            } else {
                                1.0 + q.x.iter().map(|v| v * v).sum::<f64>()
                            }
                        }));
                        let td = if par { r.es.run_parallel() } else { r.es.run() };
                        ctx.trans(r.es.generation() as u64 + 1);
                        ctx.trace();
                        let s = Snap::of(&r.es);
                        if s.gen < at && !td.reasons.contains(&TR::InvalidFunctionValue) {
                            // ended for another reason first (the step size is used up)
                            continue;
                        }
                        if td.reasons != vec![TR::InvalidFunctionValue] || s.gen != at || !bits(td.final_mean.as_slice(), &s.mean) {
                            ctx.viol("run-reason", format!("NaN at evaluation {} of a run with {} points per generation: stopped in generation {} for {:?}", idx, lambda, s.gen, td.reasons));
                        }
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }
        }));
    }
    // every non-NaN class of values is valid
    js.push(job("valid-classes", |ctx| {
        let vals = [0.0, -0.0, 5e-324, -5e-324, f64::MIN_POSITIVE, 1.0, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, 1e-310];
        for a in vals {
            for b in vals {
                for c in vals {
                    for mode in MODES {
                        for par in [false, true] {
                            let cfg = Cfg::quiet(2, 3).mode(mode);
                            p03_walk(ctx, &cfg, vec![vec![a, b, c]; 2], par, &format!("values {:?}", (a, b, c)));
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }));
    // whole runs: run stops at the NaN and reports the state before it
    for par in [false, true] {
        for mode in MODES {
            js.push(job(format!("runs mode={} par={}", mname(mode), par), move |ctx| {
                for w in [Weights::Negative, Weights::Positive] {
                    for lambda in [2usize, 4, 7] {
                        for at in 0..lambda * 6 {
                            let mut cfg = Cfg::quiet(3, lambda).mode(mode).w(w);
                            cfg.max_gens = Some(50);
                            let mk = move || -> Pol {
                                let cnt = std::sync::atomic::AtomicUsize::new(0);
                                Box::new(move |q| {
                                    let c = cnt.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                    if c == at {
                                        f64::NAN
                                    } else {
                                        q.x.iter().sum()
                                    }
                                })
                            };
                            let mut a = Run::new(&cfg, mk());
                            let td = if par { a.es.run_parallel() } else { a.es.run() };
                            let s = Snap::of(&a.es);
                            // twin: the same objective, stopped before the aborted generation
                            let mut b = Run::new(&cfg, kpol_sum());
                            for _ in 0..at / lambda {
                                let _ = b.next();
                            }
                            ctx.trans(2 * (at / lambda) as u64 + 1);
                            ctx.trace();
                            if td.reasons != vec![TR::InvalidFunctionValue] {
                                ctx.viol("run-reason", format!("NaN at evaluation {}: reasons {:?}", at, td.reasons));
                            }
                            if !s.same_dist(&b.last) || !s.same_bests(&b.last) {
                                ctx.viol("run-state", format!("NaN at evaluation {}: state {:?}, expected {:?}", at, s, b.last));
                            }
                            if !bits(td.final_mean.as_slice(), &b.last.mean) {
                                ctx.viol("run-result", format!("NaN at evaluation {}: final mean", at));
                            }
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    js
}

fn kpol_sum() -> Pol {
    Box::new(|q| q.x.iter().sum())
}
