//! P07 sampling, P08 constraint resampling.

use crate::checks::core::{cfg_fp, fp_step};
use crate::checks::dist::model_of;
use crate::la::*;
use crate::rt::*;
use crate::sim::*;
use cmaes::{Bounds, Constraints, DVector, Mode};
use rand::distributions::Distribution;
use rand::SeedableRng;
use rand_chacha::ChaCha12Rng;
use serde_json::json;
use std::sync::{Arc, Mutex};

/// The stream of standard normal deviates of a seed
pub struct ZStream {
    rng: ChaCha12Rng,
    normal: statrs::distribution::Normal,
    pub drawn: u64,
}

impl ZStream {
    pub fn new(seed: u64) -> ZStream {
        ZStream { rng: ChaCha12Rng::seed_from_u64(seed), normal: statrs::distribution::Normal::new(0.0, 1.0).unwrap(), drawn: 0 }
    }
    pub fn vec(&mut self, n: usize) -> Vec<f64> {
        self.drawn += n as u64;
        (0..n).map(|_| self.normal.sample(&mut self.rng)).collect()
    }
}

// ---------------------------------------------------------------------------------------------
// Scripted constraints

#[derive(Debug, Default)]
pub struct ScriptRec {
    /// answer for the k-th new point
    pub answers: Vec<bool>,
    pub default: bool,
    /// new points of the current step in order of first question, with the answers
    pub points: Vec<(Vec<f64>, bool)>,
    pub asked: usize,
    pub total_points: usize,
}

#[derive(Debug, Clone)]
pub struct Script(pub Arc<Mutex<ScriptRec>>);

impl Script {
    pub fn new(answers: Vec<bool>, default: bool) -> Script {
        Script(Arc::new(Mutex::new(ScriptRec { answers, default, ..Default::default() })))
    }
    /// A new script of answers from here on
    pub fn script(&self, answers: Vec<bool>) {
        let mut g = self.0.lock().unwrap();
        g.answers = answers;
        g.total_points = 0;
        g.asked = 0;
    }
    pub fn take(&self) -> Vec<(Vec<f64>, bool)> {
        let mut g = self.0.lock().unwrap();
        std::mem::take(&mut g.points)
    }
}

impl Constraints for Script {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let mut g = self.0.lock().unwrap();
        g.asked += 1;
        if g.asked > 3_000_000 {
            panic!("runaway: constraints asked more than 3000000 times");
        }
        // a point asked about again gets the same answer
        if let Some(p) = g.points.iter().rev().find(|p| bits(&p.0, x.as_slice())) {
            return p.1;
        }
        let k = g.total_points;
        let a = g.answers.get(k).cloned().unwrap_or(g.default);
        g.total_points += 1;
        g.points.push((x.as_slice().to_vec(), a));
        a
    }
    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(self.clone())
    }
}

// ---------------------------------------------------------------------------------------------
// P07

pub fn p07_walk(ctx: &mut Ctx, cfg: &Cfg, pol: Pol, steps: usize, what: &str, script: Option<Script>) {
    let id = cfg_fp(cfg);
    let n = cfg.dim();
    let lambda = cfg.lambda();
    let mut zs = ZStream::new(cfg.seed.unwrap());
    let mut r = Run::new(cfg, pol);
    let mut m = model_of(cfg);
    // pairs of the current decomposition period
    let mut hist: Vec<(Vec<f64>, Vec<f64>, f64)> = vec![];
    let mut last_ref = 0;
    let mut pairs = 0u64;
    for g in 0..steps {
        let isq = m.isq.clone();
        let isq_norm = 1.0 / m.evals_e.iter().cloned().fold(f64::MAX, f64::min).sqrt();
        let cond = m.evals_e.iter().cloned().fold(0.0f64, f64::max) * isq_norm * isq_norm;
        if m.last_refresh != last_ref {
            last_ref = m.last_refresh;
            hist.clear();
        }
        let st = r.next();
        fp_step(ctx, id, &st);
        // which of the drawn vectors are used
        let mut z: Vec<Vec<f64>> = vec![];
        match &script {
            None => {
                for _ in 0..lambda {
                    z.push(zs.vec(n));
                }
            }
            Some(s) => {
                let pts = s.take();
                let max = cfg.resample_limit();
                let mut it = pts.iter();
                let mut round = 0;
                while z.len() < lambda {
                    let remain = lambda - z.len();
                    let free = max.map_or(false, |m| round >= m);
                    for _ in 0..remain {
                        let v = zs.vec(n);
                        let ok = if free { true } else { it.next().map_or(true, |p| p.1) };
                        if ok {
                            z.push(v);
                        }
                    }
                    round += 1;
                    if round > 100_000 {
                        ctx.viol("constraint-rounds", format!("{} step {}: no end of the resampling", what, g));
                        return;
                    }
                }
            }
        }
        let s = st.before.sigma;
        let mm = &st.before.mean;
        if !st.before.finite() || cond > 1e11 || s < 1e-290 {
            ctx.count("steps_beyond_comparable_precision", (steps - g) as u64);
            break;
        }
        let xm = st.calls.iter().map(|c| max_abs(&c.x)).fold(max_abs(mm), f64::max);
        if xm > 1e290 {
            break;
        }
        // an aborted generation may have evaluated only the first points
        let seen = st.calls.len().min(z.len());
        for i in 0..seen {
            let y: Vec<f64> = st.calls[i].x.iter().zip(mm).map(|(x, m)| (x - m) / s).collect();
            let yerr = 8.0 * 2.2e-16 * (xm / s + norm(&y)) * (n as f64).sqrt();
            let u = isq.mv(&y);
            let err = isq_norm * yerr + 1e-9 * norm(&z[i]) + 256.0 * 2.2e-16 * cond * norm(&z[i]) * n as f64;
            hist.push((u, z[i].clone(), err));
        }
        let from = hist.len() - seen;
        let keep = (2 * n + 2).min(40);
        for i in from..hist.len() {
            let lo = if n > 6 { i.saturating_sub(keep) } else { 0.max(i.saturating_sub(60)) };
            for j in lo..=i {
                let a = dot(&hist[i].0, &hist[j].0);
                let b = dot(&hist[i].1, &hist[j].1);
                let tol = hist[i].2 * norm(&hist[j].1) + hist[j].2 * norm(&hist[i].1) + hist[i].2 * hist[j].2 + 1e-12;
                if tol > 0.05 * norm(&hist[i].1) * norm(&hist[j].1) {
                    ctx.count("pairs_without_precision", 1);
                    continue;
                }
                pairs += 1;
                if !((a - b).abs() <= tol) {
                    ctx.viol(
                        "gram",
                        format!(
                            "{} step {} (n={} lambda={} w={:?} seed={:?}): displacements of evaluations {} and {} of the period have whitened product {:e}, the deviates of the seed {:e} (tolerance {:e})",
                            what, g, n, lambda, cfg.weights, cfg.seed, j, i, a, b, tol
                        ),
                    );
                    return;
                }
            }
        }
        if hist.len() > 200 {
            hist.drain(..hist.len() - 100);
        }
        if st.calls.iter().any(|c| c.f.is_nan()) {
            continue;
        }
        if st.calls.len() != lambda {
            ctx.viol("points-missing", format!("{} step {}: {} points evaluated of {}", what, g, st.calls.len(), lambda));
            return;
        }
        if has(&st.out, TR::PosDefCov) {
            break;
        }
        m.step(&st.before, &st.calls, &st.after, false);
        if m.lost {
            break;
        }
    }
    ctx.count("deviate_products_compared", pairs);
    ctx.trace();
}

pub fn p07(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    // a) all rankings to a depth
    for (lambda, depth) in [(2usize, tier.pick(6, 9)), (3, tier.pick(3, 4)), (4, tier.pick(2, 2))] {
        for n in [1usize, 2, 3, 5] {
            for w in WS {
                js.push(job(format!("rankings lambda={} n={} w={}", lambda, n, wname(w)), move |ctx| {
                    let ws: Vec<Vec<f64>> = weak_orders(lambda).into_iter().map(|w| w.into_iter().map(|x| x as f64).collect()).collect();
                    for s in sequences(ws.len(), depth) {
                        let words: Vec<Vec<f64>> = s.iter().map(|&i| ws[i].clone()).collect();
                        let cfg = Cfg::quiet(n, lambda).w(w).seed(s.iter().sum::<usize>() as u64 * 977);
                        let what = format!("rankings {:?}", s);
                        ctx.sample(|| json!({"rankings": what}));
                        p07_walk(ctx, &cfg, wpol(words), depth + 2, &what, None);
                        if ctx.full() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // b) seeds x configurations x landscapes
    let ns: Vec<usize> = tier.pick(vec![1, 2, 3, 4, 6, 10, 20], vec![1, 2, 3, 4, 5, 6, 8, 10, 14, 20, 30, 45]);
    for n in ns {
        for lam in [2usize, 3, 5, 7, 12, 33, 90] {
            js.push(job(format!("lattice n={} lambda={}", n, lam), move |ctx| {
                for (ki, k) in all_kinds().into_iter().enumerate() {
                    for w in WS {
                        for (si, seed) in [0u64, 1, 42, u32::MAX as u64, u64::MAX, 1 << 63, 0xdead_beef_1234].into_iter().enumerate() {
                            if (si + ki) % 4 != 0 && ctx.tier == Tier::Quick {
                                continue;
                            }
                            let (mean, sigma) = [(0.0, 1.0), (-3.0, 0.1), (1e4, 1e3), (1e-9, 1e-7), (0.5, 2.5e40)][(ki + si) % 5];
                            let mut cfg = Cfg::quiet(n, lam).w(w).seed(seed).at((0..n).map(|i| mean * (1.0 + i as f64)).collect(), sigma);
                            if si % 2 == 1 {
                                cfg = cfg.mode(Mode::Maximize);
                            }
                            let steps = (ctx.tier.pick(40, 150) * 400 / (400 + lam * n)).max(6);
                            p07_walk(ctx, &cfg, kpol(k), steps, &format!("{:?}", k), None);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                for nans in [false, true] {
                    let cfg = Cfg::quiet(n, lambda).mode(MODES[ki % 2]).w(WS[(ki + n) % 3]).seed((ki * 7) as u64);
                    p07_walk(ctx, &cfg, if nans { nan_pol(k) } else { kpol(k) }, gens, &format!("wide {:?} nans={}", k, nans), None);
                    if ctx.full() {
                        return;
                    }
                }
            }));
        }
    }
    // c) constraint answers: all sequences to a depth, all limits
    for lambda in [2usize, 3, 4] {
        for n in [1usize, 2, 3] {
            for (mi, max) in [None, Some(None), Some(Some(0)), Some(Some(1)), Some(Some(2)), Some(Some(5))].into_iter().enumerate() {
                js.push(job(format!("constraints lambda={} n={} max={}", lambda, n, mi), move |ctx| {
                    let depth = ctx.tier.pick(9, 13);
                    for b in 0..1usize << depth {
                        let ans: Vec<bool> = (0..depth).map(|i| b >> i & 1 == 1).collect();
                        let sc = Script::new(ans, true);
                        let mut cfg = Cfg::quiet(n, lambda).seed(b as u64);
                        cfg.constraints = Some(Box::new(sc.clone()));
                        cfg.max_resamples = max;
                        p07_walk(ctx, &cfg, kpol(Kind::Lin(0, false)), 5, &format!("answers {:b}", b), Some(sc));
                        if ctx.full() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // d) generations aborted by invalid values consume their vectors
    for n in [1usize, 2, 4] {
        js.push(job(format!("aborted n={}", n), move |ctx| {
            for mask in 0..256usize {
                for lambda in [2usize, 5] {
                    let cfg = Cfg::quiet(n, lambda).seed(mask as u64);
                    let pol: Pol = Box::new(move |q| {
                        if q.step < 8 && mask >> q.step & 1 == 1 && q.idx == (q.step * 3 + mask) % lambda {
                            f64::NAN
                        } else {
                            q.x[0]
                        }
                    });
                    p07_walk(ctx, &cfg, pol, 12, &format!("nan mask {:b}", mask), None);
                    if ctx.full() {
                        return;
                    }
                }
            }
        }));
    }
    js
}

// ---------------------------------------------------------------------------------------------
// P08

/// Checks one step against the asked points
fn p08_step(ctx: &mut Ctx, what: &str, cfg: &Cfg, st: &Step, asked: &[(Vec<f64>, bool)]) {
    let lambda = cfg.lambda();
    let max = cfg.resample_limit();
    let nan = st.calls.iter().any(|c| c.f.is_nan());
    if !nan && st.calls.len() != lambda {
        ctx.viol("calls", format!("{}: {} points evaluated of {}", what, st.calls.len(), lambda));
        return;
    }
    // replay of the rounds
    let mut accepted: Vec<&Vec<f64>> = vec![];
    let mut it = asked.iter();
    let mut round = 0;
    let mut missing = 0;
    while accepted.len() < lambda && max.map_or(true, |m| round < m) {
        let remain = lambda - accepted.len();
        for _ in 0..remain {
            match it.next() {
                Some((x, true)) => accepted.push(x),
                Some((_, false)) => {}
                None => missing += 1,
            }
        }
        round += 1;
        if missing > 0 {
            break;
        }
    }
    if missing > 0 {
        ctx.viol("too-few-rounds", format!("{}: only {} points were put to the constraints, {} more were due in round {}", what, asked.len(), missing, round));
        return;
    }
    let extra = it.count();
    if extra > 0 {
        ctx.viol("too-many-rounds", format!("{}: {} points too many were put to the constraints ({} rounds allowed)", what, extra, round));
        return;
    }
    if nan {
        return;
    }
    // every accepted point is evaluated exactly once
    let mut used = vec![false; st.calls.len()];
    for a in &accepted {
        match (0..st.calls.len()).find(|&i| !used[i] && bits(&st.calls[i].x, a)) {
            Some(i) => used[i] = true,
            None => {
                ctx.viol("accepted-not-evaluated", format!("{}: the accepted point {:?} was not evaluated: {:?}", what, a, st.calls));
                return;
            }
        }
    }
    // the rest is new: neither rejected nor accepted before
    for (i, u) in used.iter().enumerate() {
        if !u {
            if max.is_none() {
                ctx.viol("unconstrained-point", format!("{}: a point not accepted by the constraints was evaluated: {:?}", what, st.calls[i].x));
                return;
            }
            if asked.iter().any(|p| bits(&p.0, &st.calls[i].x)) {
                ctx.viol("rejected-evaluated", format!("{}: the point {:?} was rejected but evaluated", what, st.calls[i].x));
                return;
            }
        }
    }
    ctx.count("points_put_to_constraints", asked.len() as u64);
    ctx.count("points_redrawn", asked.iter().filter(|p| !p.1).count() as u64);
}

pub fn p08(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    let maxes = [None, Some(None), Some(Some(0)), Some(Some(1)), Some(Some(2)), Some(Some(3)), Some(Some(7))];
    // a) all sequences of answers
    for lambda in [2usize, 3, 4, 5, 7] {
        for (mi, max) in maxes.into_iter().enumerate() {
            for n in [1usize, 3] {
                js.push(job(format!("answers lambda={} max={} n={}", lambda, mi, n), move |ctx| {
                    let depth: usize = ctx.tier.pick(11, 16);
                    for b in 0..1usize << depth {
                        for default in [true, false] {
                            if !default && max == Some(None) {
                                continue;
                            }
                            let ans: Vec<bool> = (0..depth).map(|i| b >> i & 1 == 1).collect();
                            let sc = Script::new(ans, default);
                            let mut cfg = Cfg::quiet(n, lambda).seed(b as u64 & 15);
                            cfg.constraints = Some(Box::new(sc.clone()));
                            cfg.max_resamples = max;
                            let what = format!("answers {:0w$b} then {} (lambda={} max={:?})", b, default, lambda, max, w = depth);
                            ctx.sample(|| json!({"answers": what}));
                            let id = cfg_fp(&Cfg { constraints: None, ..cfg.clone() }) ^ b as u64;
                            let mut r = Run::new(&cfg, kpol(Kind::Lin(0, false)));
                            for _ in 0..3 {
                                let st = r.next();
                                fp_step(ctx, id, &st);
                                p08_step(ctx, &what, &cfg, &st, &sc.take());
                                if ctx.full() {
                                    return;
                                }
                            }
                            ctx.trace();
                        }
                    }
                }));
            }
        }
    }
    // b) acceptance patterns by round, long resampling, NaN aborts
    for (mi, max) in maxes.into_iter().enumerate() {
        js.push(job(format!("rounds max={}", mi), move |ctx| {
            for lambda in [2usize, 6, 15] {
                for period in 2..12usize {
                    for phase in 0..period {
                        for inv in [false, true] {
                            let ans: Vec<bool> = (0..600).map(|i| (i % period == phase) != inv).collect();
                            let sc = Script::new(ans, true);
                            let mut cfg = Cfg::quiet(2, lambda).seed(period as u64);
                            cfg.constraints = Some(Box::new(sc.clone()));
                            cfg.max_resamples = max;
                            let what = format!("period {} phase {} inverted {} (lambda={} max={:?})", period, phase, inv, lambda, max);
                            let mut r = Run::new(
                                &cfg,
                                Box::new(move |q| if q.step % 3 == 1 && q.idx == 1 { f64::NAN } else { q.x[0] }),
                            );
                            for _ in 0..8 {
                                let st = r.next();
                                ctx.trans(1);
                                p08_step(ctx, &what, &cfg, &st, &sc.take());
                                if ctx.full() {
                                    return;
                                }
                            }
                            ctx.trace();
                        }
                    }
                }
            }
            // a very long chain of rejections with no limit
            if max == Some(None) {
                for reject in [50usize, 999, 5_000] {
                    let sc = Script::new(vec![false; reject], true);
                    let mut cfg = Cfg::quiet(2, 4);
                    cfg.constraints = Some(Box::new(sc.clone()));
                    cfg.max_resamples = max;
                    let mut r = Run::new(&cfg, kpol(Kind::Sphere));
                    let st = r.next();
                    ctx.trans(1);
                    p08_step(ctx, &format!("{} rejections", reject), &cfg, &st, &sc.take());
                }
            }
        }));
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                // rejections of every period, NaN aborts in between
                for (mi, max) in [None, Some(None), Some(Some(0)), Some(Some(1)), Some(Some(4))].into_iter().enumerate() {
                    let sc = Script::new(vec![], true);
                    let mut cfg = Cfg::quiet(n, lambda).mode(MODES[ki % 2]).w(WS[(ki + n) % 3]).seed((ki * 7) as u64);
                    cfg.constraints = Some(Box::new(sc.clone()));
                    cfg.max_resamples = max;
                    let what = format!("wide {:?} lambda={} max={:?}", k, lambda, max);
                    let mut r = Run::new(&cfg, nan_pol(k));
                    for g in 0..gens / 3 {
                        // a new script of answers for this generation: mostly accepted, one in `period` rejected, at times a whole round
                        let period = 2 + (g + mi) % 9;
                        sc.script((0..3 * lambda).map(|i| i % period != g % period && !(g % 13 == 5 && i < lambda)).collect());
                        let st = r.next();
                        ctx.trans(1);
                        p08_step(ctx, &format!("{} generation {}", what, g), &cfg, &st, &sc.take());
                        if ctx.full() {
                            return;
                        }
                        // points that coincide by rounding cannot be told apart by the script
                        let dev = st.after.sigma * st.after.eig.iter().cloned().fold(0.0, f64::max).sqrt();
                        if !st.after.finite() || dev < 1e-5 * max_abs(&st.after.mean) || dev < 1e-100 {
                            break;
                        }
                    }
                    ctx.trace();
                }
            }));
        }
    }
    // c) boxes: every lattice point
    let inf = f64::INFINITY;
    for n in [1usize, 2, 3] {
        js.push(job(format!("boxes n={}", n), move |ctx| {
            let boxes: Vec<(f64, f64)> = vec![(-1.0, 2.0), (0.0, 0.0), (-inf, 0.0), (1.0, inf), (-inf, inf), (2.0, -1.0), (-0.0, 0.0), (5e-324, 1e-300), (f64::NAN, 1.0), (-1.0, f64::NAN)];
            let vals = |b: (f64, f64)| {
                let mut v = vec![f64::NAN, -inf, inf, 0.0, -0.0, 0.5];
                for e in [b.0, b.1] {
                    if e.is_finite() {
                        v.extend([e, f64::from_bits(e.to_bits() + 1), if e == 0.0 { -5e-324 } else { f64::from_bits(e.to_bits() - 1) }]);
                    }
                }
                v
            };
            for bi in sequences(boxes.len(), n.min(2)) {
                let bx: Vec<(f64, f64)> = (0..n).map(|i| boxes[bi[i % bi.len()]]).collect();
                let b = Bounds { lower: bx.iter().map(|b| b.0).collect(), upper: bx.iter().map(|b| b.1).collect() };
                let vs: Vec<Vec<f64>> = bx.iter().map(|b| vals(*b)).collect();
                let total: usize = vs.iter().map(|v| v.len()).product();
                for mut c in 0..total {
                    let x: Vec<f64> = vs
                        .iter()
                        .map(|v| {
                            let r = v[c % v.len()];
                            c /= v.len();
                            r
                        })
                        .collect();
                    let expect = x.iter().zip(&bx).all(|(x, b)| b.0 <= *x && *x <= b.1);
                    let got = b.meets_constraints(&DVector::from_vec(x.clone()));
                    let cl = b.clone_box().meets_constraints(&DVector::from_vec(x.clone()));
                    let mut f = Fp::new("box");
                    f.fs(&x).fs(&b.lower).fs(&b.upper);
                    ctx.state(f.0);
                    ctx.trans(1);
                    if got != expect || cl != expect {
                        ctx.viol("bounds", format!("{:?} in {:?}: {} {}, expected {}", x, b, got, cl, expect));
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }
        }));
    }
    // d) boxes in use
    for n in [1usize, 2, 5] {
        for w in WS {
            js.push(job(format!("boxed runs n={} w={}", n, wname(w)), move |ctx| {
                for (ki, k) in all_kinds().into_iter().enumerate() {
                    for (lo, hi) in [(-0.5, 0.5), (-inf, 0.0), (0.25, 3.0), (-1.0, inf)] {
                        for max in [None, Some(None), Some(Some(3))] {
                            for pu in [false, true] {
                                if pu && (ki % 6 != 0 || max == Some(Some(3))) {
                                    continue;
                                }
                                let b = Bounds { lower: vec![lo; n], upper: vec![hi; n] };
                                let mut cfg = Cfg::quiet(n, 6).w(w).at(vec![0.3; n], 0.4).seed(ki as u64);
                                cfg.constraints = Some(Box::new(b.clone()));
                                cfg.max_resamples = max;
                                cfg.par_update = Some(pu);
                                let mut r = Run::new(&cfg, kpol(k));
                                for g in 0..if pu { 4 } else { 12 } {
                                    let st = r.next();
                                    ctx.trans(1);
                                    // an unlimited number of resamples may be needed once the distribution left the box
                                    let inside = |x: &[f64]| x.iter().all(|v| lo <= *v && *v <= hi);
                                    if max == Some(None) {
                                        for c in &st.calls {
                                            if !inside(&c.x) {
                                                ctx.viol("outside-box", format!("{:?} step {}: {:?} evaluated, box [{}, {}]", k, g, c.x, lo, hi));
                                                return;
                                            }
                                        }
                                        if !inside(&st.after.mean) || st.after.sigma > 5.0 || st.after.axis > 50.0 {
                                            break;
                                        }
                                    }
                                }
                                ctx.trace();
                            }
                        }
                    }
                }
            }));
        }
    }
    js
}
