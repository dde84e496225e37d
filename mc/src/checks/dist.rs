//! P04 mean and step size, P05 covariance and decomposition: lock step with the reference model.
//! P06 well-formedness.

use crate::checks::core::cfg_fp;
use crate::la::*;
use crate::model::*;
use crate::rt::*;
use crate::sim::*;
use cmaes::Mode;
use serde_json::json;

#[derive(Clone, Copy, PartialEq)]
pub enum Sel {
    P04,
    P05,
    Both,
}

pub fn model_of(cfg: &Cfg) -> Model {
    let p = params(cfg.dim(), cfg.lambda(), cfg.weights.unwrap_or(cmaes::Weights::Negative), cfg.cm.unwrap_or(1.0));
    Model::new(p, cfg.is_max())
}

/// Runs implementation and model in lock step
pub fn lockstep(ctx: &mut Ctx, sel: Sel, cfg: &Cfg, pol: Pol, steps: usize, what: &str, stop_at_end: bool) {
    let id = cfg_fp(cfg);
    let mut r = Run::new(cfg, pol);
    let mut m = model_of(cfg);
    if r.last.sigma != cfg.sigma || !bits(&r.last.mean, &cfg.mean) || r.last.cov != Mat::id(cfg.dim()) {
        ctx.viol("initial-state", format!("{}: the initial distribution is not the configured one: {:?}", what, r.last));
    }
    let mut compared = 0;
    for g in 0..steps {
        let st = r.next();
        let mut f = Fp(id);
        st.after.fp(&mut f);
        ctx.state(f.0);
        ctx.trans(1);
        if st.calls.iter().any(|c| c.f.is_nan()) {
            continue;
        }
        let posdef = has(&st.out, TR::PosDefCov);
        let ds = m.step(&st.before, &st.calls, &st.after, posdef);
        if m.lost {
            ctx.count("steps_beyond_comparable_precision", (steps - g) as u64);
            break;
        }
        compared += 1;
        for d in ds {
            let (mine, key) = match d.what {
                What::Mean => (sel != Sel::P05, "mean"),
                What::Sigma => (sel != Sel::P05, "sigma"),
                What::Cov => (sel != Sel::P04, "covariance"),
                What::Eig => (sel != Sel::P04, "decomposition"),
                What::Refresh => (sel != Sel::P04, "refresh-schedule"),
            };
            if mine {
                ctx.viol(
                    key,
                    format!(
                        "{} step {} (n={} lambda={} weights={:?} cm={:?} seed={:?}): {}",
                        what, g, cfg.dim(), cfg.lambda(), cfg.weights, cfg.cm, cfg.seed, d.msg
                    ),
                );
                return;
            }
        }
        if posdef || (stop_at_end && st.out.is_some()) {
            break;
        }
    }
    ctx.count("model_steps_compared", compared);
    ctx.trace();
}

pub fn jobs(sel: Sel, tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    // 0) more generations than fit into sixteen bits
    for (n, lambda) in tier.pick(vec![(20usize, 10usize)], vec![(20, 10), (30, 12), (40, 14)]) {
        for w in [WS[0], WS[2]] {
            js.push(job(format!("very long n={} lambda={} w={}", n, lambda, wname(w)), move |ctx| {
                let cfg = Cfg::quiet(n, lambda).w(w).seed(3);
                // a target that keeps moving keeps the distribution at its scale
                let pol: Pol = Box::new(|q| q.x.iter().enumerate().map(|(i, v)| v - 5.0 * crate::rt::hash01((q.step / 5) as u64, i as u64)).map(|d| d * d).sum());
                lockstep(ctx, sel, &cfg, pol, ctx.tier.pick(33_200, 67_000), "very long", false);
            }));
        }
    }
    // a) all rankings (weak orders) as answer words, all sequences to a depth
    let mut menus: Vec<(usize, usize, bool)> = vec![(2, 6, false), (3, 3, false), (4, 2, false), (5, 2, true), (6, 1, true)];
    if tier == Tier::Thorough {
        menus = vec![(2, 10, false), (3, 4, false), (4, 3, true), (4, 2, false), (5, 2, true), (6, 2, true), (7, 1, true)];
    }
    for (lambda, depth, perms) in menus {
        let ws: Vec<Vec<f64>> = if perms { permutations(lambda) } else { weak_orders(lambda) }
            .into_iter()
            .map(|w| w.into_iter().map(|x| x as f64).collect())
            .collect();
        let nw = ws.len();
        let parts = 8usize.min(nw);
        for n in [1usize, 2, 3] {
            for (wi, w) in WS.into_iter().enumerate() {
                if tier == Tier::Quick && (lambda == 5 || lambda == 6) && n == 1 {
                    continue;
                }
                if tier == Tier::Thorough && lambda == 6 && depth == 2 && n != 2 {
                    continue;
                }
                for part in 0..parts {
                    let ws = ws.clone();
                    js.push(job(format!("rankings lambda={} depth={} perms={} n={} w={} part={}", lambda, depth, perms, n, wname(w), part), move |ctx| {
                        for first in (part..nw).step_by(parts) {
                            for rest in sequences(nw, depth - 1) {
                                let maxi = (first + rest.iter().sum::<usize>() + wi) % 2 == 1;
                                let sgn = if maxi { -1.0 } else { 1.0 };
                                let seq: Vec<Vec<f64>> = std::iter::once(first).chain(rest.iter().cloned()).map(|i| ws[i].iter().map(|x| sgn * x).collect()).collect();
                                let mut cfg = Cfg::quiet(n, lambda).w(w).seed(1 + part as u64);
                                if maxi {
                                    cfg = cfg.mode(Mode::Maximize);
                                }
                                let s2 = seq.clone();
                                ctx.sample(|| json!({"rankings": format!("{:?}", s2), "config": format!("n={} lambda={} {:?}", n, lambda, w)}));
                                let what = format!("rankings {:?}", seq);
                                // one extra step lets the effect of the last ranking show
                                lockstep(ctx, sel, &cfg, wpol(seq), depth + 1, &what, false);
                                if ctx.full() {
                                    return;
                                }
                            }
                        }
                    }));
                }
            }
        }
    }
    // b) configuration lattice x landscapes and adversarial rankings
    let ns: Vec<usize> = tier.pick(vec![1, 2, 3, 4, 5, 7, 10, 16, 25], vec![1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 16, 20, 25, 33, 40]);
    for &n in &ns {
        let lams: Vec<usize> = tier.pick(vec![0, 2, 3, 5, 6, 9, 14, 31, 100], vec![0, 2, 3, 4, 5, 6, 7, 8, 9, 11, 14, 15, 20, 31, 64, 100, 301]);
        for lam in lams {
            for w in WS {
                js.push(job(format!("lattice n={} lambda={} w={}", n, lam, wname(w)), move |ctx| {
                    let kinds = all_kinds();
                    for (ki, k) in kinds.into_iter().enumerate() {
                        for (ci, cm) in [None, Some(0.5), Some(1e-3), Some(0.999)].into_iter().enumerate() {
                            if ctx.tier == Tier::Quick && (ki + ci + n) % 2 == 1 && ci > 0 {
                                continue;
                            }
                            let mut cfg = Cfg::quiet(n, 0).w(w);
                            cfg.lambda = if lam == 0 { None } else { Some(lam) };
                            cfg.cm = cm;
                            cfg.seed = Some((ki * 7 + ci) as u64);
                            let (mean, sigma) = match (ki + ci) % 5 {
                                0 => (vec![0.0; n], 1.0),
                                1 => ((0..n).map(|i| i as f64 - 1.5).collect(), 0.3),
                                2 => (vec![3e5; n], 1e3),
                                3 => (vec![-1e-8; n], 1e-8),
                                _ => (vec![1e100; n], 1e100),
                            };
                            cfg = cfg.at(mean, sigma);
                            if ki % 2 == 1 {
                                cfg = cfg.mode(Mode::Maximize);
                            }
                            let lamv = cfg.lambda();
                            let budget = ctx.tier.pick(240, 1000) * 2000 / (2000 + lamv * n * n);
                            let steps = budget.clamp(12, 400);
                            let what = format!("{:?}", k);
                            ctx.sample(|| json!({"policy": what, "steps": steps, "config": format!("{:?}", cfg)}));
                            lockstep(ctx, sel, &cfg, kpol(k), steps, &what, false);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }));
            }
        }
    }
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                for nans in [false, true] {
                    let mut cfg = Cfg::quiet(n, lambda).mode(MODES[ki % 2]).w(WS[(ki + n) % 3]).seed(ki as u64);
                    cfg.cm = [None, Some(0.7)][nans as usize];
                    lockstep(ctx, sel, &cfg, if nans { nan_pol(k) } else { kpol(k) }, gens, &format!("wide {:?} nans={}", k, nans), false);
                    if ctx.full() {
                        return;
                    }
                }
            }));
        }
    }
    // c) blocks of adversarial rankings: all sequences of kinds
    let kinds = [Kind::Far, Kind::Near, Kind::FarK(0), Kind::NearK(0), Kind::Lin(0, true), Kind::Hash(4), Kind::Cigar];
    for n in [2usize, 3, 5] {
        for w in WS {
            for first in 0..kinds.len() {
                js.push(job(format!("blocks n={} w={} first={}", n, wname(w), first), move |ctx| {
                    let len = ctx.tier.pick(2, 3);
                    for rest in sequences(kinds.len(), len) {
                        let mut ks = vec![kinds[first]];
                        ks.extend(rest.iter().map(|&i| kinds[i]));
                        for lambda in [4usize, 7] {
                            let cfg = Cfg::quiet(n, lambda).w(w).seed(rest[0] as u64);
                            let what = format!("{:?}", ks);
                            let bl = 12;
                            lockstep(ctx, sel, &cfg, blocks(ks.clone(), bl), bl * (len + 1), &what, false);
                        }
                        if ctx.full() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // d) invalid answers and constraint resampling in between
    for n in [1usize, 2, 4] {
        for w in WS {
            js.push(job(format!("faults n={} w={}", n, wname(w)), move |ctx| {
                for mask in 0..64usize {
                    for lambda in [3usize, 6] {
                        for cons in [false, true] {
                            let mut cfg = Cfg::quiet(n, lambda).w(w).seed(mask as u64);
                            if cons {
                                cfg.constraints = Some(Box::new(cmaes::Bounds { lower: vec![-0.2; n], upper: vec![1e9; n] }));
                                cfg.max_resamples = Some(Some(mask % 4));
                            }
                            let pol: Pol = Box::new(move |q| {
                                if q.step < 12 && mask >> (q.step / 2) & 1 == 1 && q.idx == q.step % lambda {
                                    f64::NAN
                                } else {
                                    q.x.iter().map(|x| -x).sum::<f64>()
                                }
                            });
                            lockstep(ctx, sel, &cfg, pol, 25, &format!("nan mask {:b} cons={}", mask, cons), false);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // e) long histories
    let total = tier.pick(3000, 40_000);
    for n in [1usize, 2, 3, 6] {
        for w in WS {
            for (ki, k) in [Kind::Hash(8), Kind::Ties(2, 2), Kind::Const(1.0), Kind::Cycle(true)].into_iter().enumerate() {
                js.push(job(format!("long n={} w={} k={}", n, wname(w), ki), move |ctx| {
                    let cfg = Cfg::quiet(n, 4 + ki).w(w).seed(ki as u64);
                    lockstep(ctx, sel, &cfg, kpol(k), total, &format!("{:?}", k), false);
                }));
            }
        }
    }
    // f) runs on benchmark landscapes to convergence
    for n in [1usize, 2, 3, 5, 10] {
        for w in WS {
            js.push(job(format!("converge n={} w={}", n, wname(w)), move |ctx| {
                for k in [Kind::Sphere, Kind::Elli(3.0), Kind::Elli(6.0), Kind::Rosen, Kind::Rastrigin, Kind::Cigar] {
                    for seed in 0..ctx.tier.pick(2, 10) {
                        let mut cfg = Cfg::new(vec![0.1; n], 0.3).w(w).seed(seed);
                        cfg.tol_fun = Some(1e-30);
                        cfg.tol_fun_hist = Some(1e-30);
                        lockstep(ctx, sel, &cfg, kpol(k), 1500, &format!("{:?}", k), true);
                    }
                }
            }));
        }
    }
    js
}

pub fn p04(t: Tier) -> Vec<Job> {
    jobs(Sel::P04, t)
}
pub fn p05(t: Tier) -> Vec<Job> {
    jobs(Sel::P05, t)
}

// ---------------------------------------------------------------------------------------------

pub fn well_formed(s: &Snap) -> Option<String> {
    let n = s.cov.n;
    for i in 0..n {
        for j in 0..n {
            let c = s.cov.at(i, j);
            if !c.is_finite() {
                return Some(format!("cov[{},{}] = {}", i, j, c));
            }
            if c != s.cov.at(j, i) {
                return Some(format!("covariance is not symmetric at [{},{}]: {:e} {:e}", i, j, c, s.cov.at(j, i)));
            }
        }
    }
    if !(s.sigma > 0.0 && s.sigma.is_finite()) {
        return Some(format!("sigma = {}", s.sigma));
    }
    if s.eig.iter().any(|e| !(*e > 0.0 && e.is_finite())) {
        return Some(format!("eigenvalues {:?}", s.eig));
    }
    let mx = s.eig.iter().cloned().fold(f64::MIN, f64::max);
    let mn = s.eig.iter().cloned().fold(f64::MAX, f64::min);
    let a = (mx / mn).sqrt();
    if !((s.axis - a).abs() <= 1e-9 * a) {
        return Some(format!("axis ratio {:e}, eigenvalues {:?}", s.axis, s.eig));
    }
    None
}

fn p06_walk(ctx: &mut Ctx, cfg: &Cfg, pol: Pol, steps: usize, what: &str, beyond: bool) {
    // without the default limits the step size may over- or underflow
    let limits_off = cfg.tol_x_up == Some(f64::INFINITY);
    let id = cfg_fp(cfg);
    let mut r = Run::new(cfg, pol);
    let mut m = model_of(cfg);
    for g in 0..steps {
        let st = r.next();
        let mut f = Fp(id);
        st.after.fp(&mut f);
        ctx.state(f.0);
        ctx.trans(1);
        let posdef = has(&st.out, TR::PosDefCov);
        if posdef && reasons(&st.out) != vec![TR::PosDefCov] {
            ctx.viol("posdef-alone", format!("{} step {}: {:?}", what, g, reasons(&st.out)));
        }
        let nan = st.calls.iter().any(|c| c.f.is_nan());
        if !nan && !beyond {
            // is a refresh due, and if so is the covariance positive definite?
            let passed = st.after.evals - m.last_refresh;
            let due = passed >= (m.p.refresh * (1.0 - 1e-9)).ceil() as usize;
            if due && st.after.cov.finite() {
                let (vals, _) = jacobi(&st.after.cov);
                let mx = vals.iter().cloned().fold(0.0f64, |a, b| a.max(b.abs()));
                let mn = vals.iter().cloned().fold(f64::MAX, f64::min);
                let tol = 1e-13 * mx * vals.len() as f64;
                if mn > tol && posdef {
                    ctx.viol("posdef-spurious", format!("{} step {}: PosDefCov with eigenvalues {:?}", what, g, vals));
                }
                if mn < -tol && !posdef && passed >= (m.p.refresh * (1.0 + 1e-9)).ceil() as usize {
                    ctx.viol("posdef-missed", format!("{} step {}: eigenvalues {:?} without PosDefCov", what, g, vals));
                }
                if mn < -tol {
                    ctx.count("non_positive_definite_reached", 1);
                }
                if !posdef {
                    m.last_refresh = st.after.evals;
                }
            } else if posdef && !due {
                ctx.viol("posdef-spurious", format!("{} step {}: PosDefCov without a refresh", what, g));
            }
        }
        if st.out.is_none() {
            if limits_off && !st.after.finite() {
                ctx.count("overflow_without_limits", 1);
            } else if let Some(e) = well_formed(&st.after) {
                ctx.viol("ill-formed", format!("{} step {}: the run goes on with {}", what, g, e));
                return;
            }
        } else {
            for rs in reasons(&st.out) {
                ctx.count(&format!("ended_{:?}", rs), 1);
            }
            if !beyond {
                break;
            }
        }
        if st.after.cov.n > 0 && !posdef {
            for i in 0..st.after.cov.n {
                for j in 0..i {
                    let (a, b) = (st.after.cov.at(i, j), st.after.cov.at(j, i));
                    if a != b && !(a.is_nan() && b.is_nan()) {
                        ctx.viol("asymmetric", format!("{} step {}: cov[{},{}]", what, g, i, j));
                        return;
                    }
                }
            }
        }
        if ctx.full() {
            return;
        }
    }
    ctx.trace();
}

pub fn p06(tier: Tier) -> Vec<Job> {
    let mut js = vec![];
    // an objective that is itself an optimisation
    js.push(job("nested".to_string(), move |ctx| super::equiv::nested(ctx, 2, 5)));
    // wide shapes: long histories, large populations, many dimensions, generations aborted on the way
    for (n, lambda, gens) in wide(tier == Tier::Thorough) {
        for (ki, k) in wide_kinds().into_iter().enumerate() {
            js.push(job(format!("wide n={} lambda={} kind={}", n, lambda, ki), move |ctx| {
                for w in WS {
                    for limits in [false, true] {
                        let mut cfg = Cfg::quiet(n, lambda).mode(MODES[ki % 2]).w(w).seed(ki as u64);
                        if limits {
                            cfg = Cfg::new(vec![0.5; n], 0.7).lam(lambda).mode(MODES[ki % 2]).w(w).seed(ki as u64);
                        }
                        p06_walk(ctx, &cfg, kpol(k), gens / 2, &format!("wide {:?} n={} lambda={} {:?} limits={}", k, n, lambda, w, limits), !limits && gens > 100 && ki % 2 == 0);
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    let adv = [Kind::Far, Kind::Near, Kind::FarK(0), Kind::NearK(0), Kind::FarK(1), Kind::NearK(1), Kind::Lin(0, true), Kind::Hash(4), Kind::Cigar, Kind::Infs(2), Kind::Const(f64::INFINITY), Kind::IndexRev];
    // a) all sequences of blocks of adversarial rankings, default limits
    for n in [1usize, 2, 3, 5] {
        for lambda in [2usize, 3, 4, 5, 8, 13] {
            for w in WS {
                js.push(job(format!("adversary n={} lambda={} w={}", n, lambda, wname(w)), move |ctx| {
                    let len = ctx.tier.pick(2, 3);
                    for s in sequences(adv.len(), len) {
                        let ks: Vec<Kind> = s.iter().map(|&i| adv[i]).collect();
                        for bl in [5usize, 25] {
                            let mut cfg = Cfg::new(vec![0.0; n], 1.0).lam(lambda).w(w).seed(s[0] as u64);
                            cfg.tol_fun = Some(0.0);
                            cfg.tol_fun_hist = Some(0.0);
                            if s[0] % 2 == 1 {
                                cfg = cfg.mode(Mode::Maximize);
                            }
                            let what = format!("{:?} in blocks of {}", ks, bl);
                            ctx.sample(|| json!({"blocks": what}));
                            p06_walk(ctx, &cfg, blocks(ks.clone(), bl), bl * len * 2, &what, false);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }));
            }
        }
    }
    // b) one adversary for a long time (until a limit ends the run), extreme starting points
    for n in [1usize, 2, 3, 4, 8, 15] {
        for w in WS {
            js.push(job(format!("persistent n={} w={}", n, wname(w)), move |ctx| {
                for (ki, k) in all_kinds().into_iter().enumerate() {
                    for lambda in [2usize, 3, 4, 6, 11, 24] {
                        for (mean, sigma) in [(0.0, 1.0), (1.0, 1e-6), (1e300, 1e299), (1e-300, 1e-300), (-1e150, f64::MIN_POSITIVE), (0.0, 1e290), (f64::MAX, 1.0), (0.0, f64::MIN_POSITIVE)] {
                            let mut cfg = Cfg::new(vec![mean; n], sigma).lam(lambda).w(w).seed(ki as u64);
                            cfg.tol_fun = Some(0.0);
                            cfg.tol_fun_hist = Some(0.0);
                            let what = format!("{:?} lambda={} mean={:e} sigma={:e}", k, lambda, mean, sigma);
                            // with infinite coordinates some landscapes give NaN, which must not be a value here
                            let pol: Pol = Box::new(move |q| {
                                let v = kind_value(k, q);
                                if v.is_nan() {
                                    0.0
                                } else {
                                    v
                                }
                            });
                            p06_walk(ctx, &cfg, pol, ctx.tier.pick(250, 3000) * 4 / (4 + n), &what, false);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // c) stepping beyond termination, and with all limits off, never panics and keeps the covariance symmetric
    for n in [1usize, 2, 3, 6] {
        for w in WS {
            js.push(job(format!("beyond n={} w={}", n, wname(w)), move |ctx| {
                for (ki, k) in all_kinds().into_iter().enumerate() {
                    for lambda in [2usize, 5, 12] {
                        for lim in [false, true] {
                            let mut cfg = if lim { Cfg::quiet(n, lambda) } else { Cfg::new(vec![0.0; n], 1.0).lam(lambda) };
                            cfg = cfg.w(w).seed(ki as u64);
                            let steps = ctx.tier.pick(150, 1500);
                            p06_walk(ctx, &cfg, kpol(k), steps, &format!("{:?} lambda={} limits_off={}", k, lambda, lim), true);
                        }
                    }
                }
            }));
        }
    }
    // e) all words of infinite and finite values, repeated until every history window is full of them
    for lambda in [2usize, 4] {
        for w in WS {
            js.push(job(format!("infinities lambda={} w={}", lambda, wname(w)), move |ctx| {
                let inf = f64::INFINITY;
                let ws = crate::checks::core::words(&[-inf, 0.0, inf, f64::MAX], lambda);
                for (i, a) in ws.iter().enumerate() {
                    let bs: Vec<Vec<f64>> = if lambda == 2 { ws.clone() } else { vec![ws[(i * 7 + 3) % ws.len()].clone()] };
                    for b in bs {
                        for mode in MODES {
                            let mut cfg = Cfg::new(vec![0.0; 2], 1.0).lam(lambda).w(w).mode(mode).seed(i as u64);
                            cfg.tol_stag = Some(0);
                            cfg.tol_x_up = Some(1e300);
                            let what = format!("{:?} {:?}", a, b);
                            p06_walk(ctx, &cfg, wpol(vec![a.clone(), b.clone(), a.clone()]), ctx.tier.pick(120, 400), &what, true);
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // d) ill-conditioned landscapes with the condition limit off: positive definiteness is lost only with PosDefCov
    for n in [2usize, 3, 4, 6] {
        for w in WS {
            js.push(job(format!("illcond n={} w={}", n, wname(w)), move |ctx| {
                for c in [8.0, 16.0, 24.0, 32.0] {
                    for lambda in [4usize, 7, 12] {
                        for seed in 0..ctx.tier.pick(2, 8) {
                            let cfg = Cfg::quiet(n, lambda).at(vec![1.0; n], 1.0).w(w).seed(seed);
                            p06_walk(ctx, &cfg, kpol(Kind::Elli(c)), ctx.tier.pick(500, 3000), &format!("elli 1e{} lambda={} seed={}", c, lambda, seed), false);
                            if c == 8.0 {
                                p06_walk(ctx, &cfg, kpol(Kind::Ridge), ctx.tier.pick(1500, 4000), &format!("ridge lambda={} seed={}", lambda, seed), false);
                            }
                        }
                    }
                }
            }));
        }
    }
    js
}
