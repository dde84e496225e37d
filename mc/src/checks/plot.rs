//! P28, P29: the data plot.

use super::core::{cfg_fp, words};
use crate::rt::*;
use crate::sim::*;
use crate::term::median;
use cmaes::{Mode, PlotOptions};
use serde_json::json;
use std::path::Path;

// ---------------------------------------------------------------------------------------------
// Reading back what was recorded

#[derive(Clone, Debug, PartialEq)]
pub struct Point {
    pub evals: usize,
    pub best: f64,
    pub median: f64,
    pub sigma: f64,
    pub axis: f64,
    pub mean: Vec<f64>,
    pub eig: Vec<f64>,
    pub coord: Vec<f64>,
}

fn bracket<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    let k = format!("{}: [", key);
    let i = s.find(&k)? + k.len();
    let mut d = 1;
    for (j, c) in s[i..].char_indices() {
        match c {
            '[' => d += 1,
            ']' => {
                d -= 1;
                if d == 0 {
                    return Some(&s[i..i + j]);
                }
            }
            _ => (),
        }
    }
    None
}

fn list(s: &str) -> Option<Vec<f64>> {
    if s.trim().is_empty() {
        return Some(vec![]);
    }
    s.split(',').map(|x| x.trim().parse::<f64>().ok()).collect()
}

fn lists(s: &str) -> Option<Vec<Vec<f64>>> {
    let mut r = vec![];
    let mut rest = s;
    while let Some(i) = rest.find('[') {
        let j = rest[i..].find(']')? + i;
        r.push(list(&rest[i + 1..j])?);
        rest = &rest[j + 1..];
    }
    Some(r)
}

/// None if the Debug output does not have the expected fields
fn read(dbg: &str) -> Option<Vec<Point>> {
    let ev = list(bracket(dbg, "function_evals")?)?;
    let best = list(bracket(dbg, "best_function_value")?)?;
    let med = list(bracket(dbg, "median_function_value")?)?;
    let sigma = list(bracket(dbg, "sigma")?)?;
    let axis = list(bracket(dbg, "axis_ratio")?)?;
    let mean = lists(bracket(dbg, "mean_dimensions")?)?;
    let eig = lists(bracket(dbg, "sqrt_eigenvalues")?)?;
    let coord = lists(bracket(dbg, "coord_axis_scales")?)?;
    let col = |m: &Vec<Vec<f64>>, i: usize| m.iter().map(|v| v.get(i).copied().unwrap_or(f64::NAN)).collect::<Vec<_>>();
    let k = ev.len();
    let mut r = vec![];
    if [&best, &med, &sigma, &axis].iter().any(|v| v.len() != k) || [&mean, &eig, &coord].iter().any(|m| m.iter().any(|v| v.len() != k)) {
        // columns of different lengths: report through a point that cannot match
        return Some(vec![]);
    }
    for i in 0..k {
        r.push(Point { evals: ev[i] as usize, best: best[i], median: med[i], sigma: sigma[i], axis: axis[i], mean: col(&mean, i), eig: col(&eig, i), coord: col(&coord, i) });
    }
    Some(r)
}

/// the drawing offset of 1e-20 and rounding aside
fn near(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (b.is_finite() && (a - b).abs() <= 3e-20 + 1e-12 * b.abs())
}

fn nears(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y))
}

pub fn same_point(a: &Point, b: &Point) -> bool {
    a.evals == b.evals && near(a.best, b.best) && (near(a.median, b.median) || (b.median.is_nan() && b.evals > 0)) && near(a.sigma, b.sigma) && near(a.axis, b.axis) && nears(&a.mean, &b.mean) && nears(&a.eig, &b.eig) && nears(&a.coord, &b.coord)
}

// ---------------------------------------------------------------------------------------------
// The model of the recording

pub struct PlotModel {
    gap: usize,
    last_evals: usize,
    last_gen: usize,
    pub pts: Vec<Point>,
    median: f64,
}

impl PlotModel {
    fn point(&self, s: &Snap) -> Point {
        let mut eig: Vec<f64> = s.eig.iter().map(|x| x.sqrt()).collect();
        eig.sort_by(|a, b| a.partial_cmp(b).unwrap());
        Point {
            evals: s.evals,
            best: s.cur.as_ref().map_or(f64::NAN, |c| c.1),
            median: self.median,
            sigma: s.sigma,
            axis: s.axis,
            mean: s.mean.clone(),
            eig,
            coord: (0..s.mean.len()).map(|i| s.cov.at(i, i).sqrt()).collect(),
        }
    }
    pub fn new(gap: usize, s: &Snap) -> PlotModel {
        let mut m = PlotModel { gap, last_evals: 0, last_gen: usize::MAX, pts: vec![], median: f64::NAN };
        m.record(s);
        m
    }
    pub fn record(&mut self, s: &Snap) {
        if self.last_gen != s.gen {
            let p = self.point(s);
            self.pts.push(p);
            self.last_gen = s.gen;
            self.last_evals = s.evals;
        }
    }
    pub fn step(&mut self, st: &Step) {
        if st.after.gen == st.before.gen {
            return; // aborted
        }
        let mut v: Vec<f64> = st.calls.iter().map(|c| c.f).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        self.median = median(&v);
        if st.after.gen <= 1 || st.after.evals >= self.last_evals.saturating_add(self.gap) {
            self.record(&st.after);
        }
    }
    pub fn clear(&mut self) {
        let k = self.pts.len();
        self.pts.drain(..k - 1);
    }
}

fn compare(ctx: &mut Ctx, r: &Run, m: &PlotModel, what: &str) {
    let Some(p) = r.es.get_plot() else {
        return ctx.viol("no-plot", format!("{}: plotting is enabled but there is no plot", what));
    };
    if p.len() != m.pts.len() || p.is_empty() != m.pts.is_empty() {
        return ctx.viol("points", format!("{}: holds {} points (is_empty {}), expected {}: evaluations {:?}", what, p.len(), p.is_empty(), m.pts.len(), m.pts.iter().map(|p| p.evals).collect::<Vec<_>>()));
    }
    if p.capacity() < p.len() {
        ctx.viol("capacity", format!("{}: capacity {} with {} points", what, p.capacity(), p.len()));
    }
    match read(&format!("{:?}", p)) {
        None => ctx.count("unreadable_plots", 1),
        Some(v) => {
            ctx.count("plots_read_back", 1);
            for (i, w) in m.pts.iter().enumerate() {
                match v.get(i) {
                    Some(x) if same_point(x, w) => (),
                    x => return ctx.viol("point", format!("{}: point {} is {:?}, expected {:?}", what, i, x, w)),
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Next,
    NextPar,
    Record,
    Clear,
    Invalid,
    Run,
}

const OPS: [Op; 6] = [Op::Next, Op::Record, Op::Clear, Op::Invalid, Op::Run, Op::NextPar];

fn walk(ctx: &mut Ctx, cfg: &Cfg, ops: &[Op], what: &str) {
    let l = cfg.lambda();
    let gap = cfg.plot.unwrap().0;
    // the policy is told which operation asks
    let inv = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let i2 = inv.clone();
    let mut r = Run::new(
        cfg,
        Box::new(move |q| {
            if i2.load(std::sync::atomic::Ordering::SeqCst) && q.idx == l / 2 {
                return f64::NAN;
            }
            let s: f64 = q.x.iter().enumerate().map(|(i, v)| (v - 0.3) * (v - 0.3) * (1.0 + i as f64)).sum();
            if q.x[0] > 1.6 { f64::INFINITY } else { s }
        }),
    );
    let mut m = PlotModel::new(gap, &r.last);
    compare(ctx, &r, &m, &format!("{}: initially", what));
    let mut fp = Fp::new("plot");
    fp.u(cfg_fp(cfg)).u(gap as u64);
    for (k, op) in ops.iter().enumerate() {
        let w = || format!("{} (lambda {}, gap {}): after {:?}", what, l, gap, &ops[..=k]);
        let cap = r.es.get_plot().map_or(0, |p| p.capacity());
        match op {
            Op::Next => {
                let st = r.next();
                m.step(&st);
            }
            Op::NextPar => {
                let st = r.next_parallel();
                m.step(&st);
            }
            Op::Record => {
                r.es.add_plot_point();
                let s = Snap::of(&r.es);
                m.record(&s);
            }
            Op::Clear => {
                if let Some(p) = r.es.get_mut_plot() {
                    p.clear();
                }
                m.clear();
                let now = r.es.get_plot().map_or(0, |p| p.capacity());
                if now != cap {
                    ctx.viol("clear-capacity", format!("{}: capacity {} became {}", w(), cap, now));
                }
            }
            Op::Invalid => {
                inv.store(true, std::sync::atomic::Ordering::SeqCst);
                let st = r.next();
                inv.store(false, std::sync::atomic::Ordering::SeqCst);
                m.step(&st);
            }
            Op::Run => {
                // replay the run stepwise on the model: a run is steps until termination, then a final record
                let before = r.last.clone();
                r.obj.0.lock().unwrap().calls.clear();
                let _ = r.es.run();
                let calls = std::mem::take(&mut r.obj.0.lock().unwrap().calls);
                let after = Snap::of(&r.es);
                // runs are limited to one generation by the configuration's generation limit once reached; otherwise
                // they go on to that limit, so intermediate states are taken from a twin
                if after.gen == before.gen + 1 {
                    m.step(&Step { before, after: after.clone(), calls, out: None });
                    m.record(&after);
                } else {
                    ctx.viol("run-length", format!("{}: {} generations", w(), after.gen - before.gen));
                }
                r.last = after;
            }
        }
        compare(ctx, &r, &m, &w());
        let s = &r.last;
        s.fp(&mut fp);
        fp.u(m.pts.len() as u64);
        ctx.state(fp.0);
        ctx.trans(1);
        if ctx.full() {
            return;
        }
    }
    ctx.trace();
}

pub fn p28(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    for l in [2usize, 5] {
        for (gi, gap) in [0usize, 1, l - 1, l, l + 1, 2 * l, 3 * l + 1, 1000, usize::MAX - 1, usize::MAX].into_iter().enumerate() {
            for first in OPS {
                jobs.push(job(format!("ops/l{}/gap{}/{:?}", l, gi, first), move |ctx| {
                    let mut cfg = Cfg::quiet(2, l);
                    cfg.plot = Some((gap, gi % 2 == 0));
                    // any run ends after its first generation
                    cfg.max_gens = Some(1);
                    for w in sequences(OPS.len(), tier.pick(4, 6)) {
                        let mut ops = vec![first];
                        ops.extend(w.iter().map(|i| OPS[*i]));
                        walk(ctx, &cfg, &ops, "operations");
                        if ctx.full() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // values of all magnitudes
    for l in [2usize, 3, 4, 5] {
        for mode in MODES {
            jobs.push(job(format!("values/l{}/{}", l, mname(mode)), move |ctx| {
                let vals = [0.0, 1.0, -1.5, 1e-320, 1e300, f64::MAX, 0.75 * f64::MAX, -f64::MAX, f64::INFINITY, f64::NEG_INFINITY];
                for w in sequences(vals.len(), tier.pick(3, 4)) {
                    let v: Vec<f64> = w.iter().map(|i| vals[*i]).collect();
                    let mut cfg = Cfg::quiet(1, l).mode(mode);
                    cfg.plot = Some((0, false));
                    let v2 = v.clone();
                    let mut r = Run::new(&cfg, Box::new(move |q| v2[(q.idx + q.step) % v2.len()]));
                    let mut m = PlotModel::new(0, &r.last);
                    for _ in 0..2 {
                        let st = r.next();
                        m.step(&st);
                    }
                    compare(ctx, &r, &m, &format!("values {:?}, lambda {}, {}", v, l, mname(mode)));
                    let mut f = Fp::new("plotvals");
                    f.fs(&v).u(l as u64).u((mode == Mode::Maximize) as u64);
                    ctx.state(f.0);
                    ctx.trace();
                    if ctx.full() {
                        return;
                    }
                }
            }));
        }
    }
    // whole runs: every gap x length, compared with a stepped twin
    for par in [false, true] {
        for l in [2usize, 3, 6] {
            jobs.push(job(format!("runs/l{}/par{}", l, par), move |ctx| {
                for n in [1usize, 3] {
                    for gens in tier.pick(vec![1usize, 2, 3, 4, 7, 12, 30], (1..60).collect()) {
                        for gap in [0, 1, l, l + 1, 2 * l - 1, 2 * l, 2 * l + 1, 5 * l, gens * l - 1, gens * l, gens * l + 1, 10 * l, 10_000] {
                            // the last one ends with invalid values
                            for (k, bad) in [(Kind::Sphere, false), (Kind::Const(1.0), false), (Kind::AntiSphere, false), (Kind::Sphere, true)] {
                                let mut cfg = Cfg::quiet(n, l);
                                cfg.plot = Some((gap, false));
                                cfg.max_gens = Some(gens);
                                if k == Kind::AntiSphere {
                                    cfg.mode = Some(Mode::Maximize);
                                }
                                let pol = || -> Pol {
                                    let mut inner = kpol(k);
                                    Box::new(move |q| if bad && q.step + 1 >= gens { f64::NAN } else { inner(q) })
                                };
                                let mut r = Run::new(&cfg, pol()).auto();
                                let mut t = Run::new(&cfg, pol()).auto();
                                let mut m = PlotModel::new(gap, &t.last);
                                loop {
                                    let st = t.next();
                                    m.step(&st);
                                    if st.out.is_some() {
                                        break;
                                    }
                                }
                                if par {
                                    let _ = r.es.run_parallel();
                                } else {
                                    let _ = r.es.run();
                                }
                                // how many points of an aborted generation are evaluated in parallel is open
                                let s = Snap::of(if bad && par { &r.es } else { &t.es });
                                m.record(&s);
                                compare(ctx, &r, &m, &format!("run of {} generations, lambda {}, gap {}", gens, l, gap));
                                let mut f = Fp::new("plotrun");
                                f.u(cfg_fp(&cfg)).u(gap as u64).u(gens as u64);
                                ctx.state(f.0);
                                ctx.trans(gens as u64);
                                ctx.trace();
                                ctx.sample(|| json!({"lambda": l, "gap": gap, "generations": gens, "recorded": m.pts.iter().map(|p| p.evals).collect::<Vec<_>>()}));
                                if bad {
                                    continue;
                                }
                                // twice in a row: at most one more generation, each state at most once
                                let before = m.pts.len();
                                let st = t.next();
                                m.step(&st);
                                let s = Snap::of(&t.es);
                                m.record(&s);
                                let _ = r.es.run();
                                compare(ctx, &r, &m, &format!("second run after {} generations, lambda {}, gap {} ({} points before)", gens, l, gap, before));
                            }
                        }
                    }
                }
            }));
        }
    }
    // values of every magnitude are recorded as they are, all words over a generation or two
    for mode in MODES {
        for n in [1usize, 2, 4] {
            jobs.push(job(format!("values/{}/n{}", mname(mode), n), move |ctx| {
                let alpha = [f64::NEG_INFINITY, -1e300, -2.0, -0.0, 1e-25, 1.0, 1e300, f64::INFINITY];
                for l in [2usize, 3] {
                    for w in words(&alpha, l) {
                        for w2 in words(&[-1.0, f64::INFINITY, 3.0], l) {
                            let mut cfg = Cfg::quiet(n, l).mode(mode);
                            cfg.plot = Some((0, true));
                            let mut r = Run::new(&cfg, wpol(vec![w.clone(), w2.clone()]));
                            let mut m = PlotModel::new(0, &r.last);
                            for _ in 0..2 {
                                let st = r.next();
                                m.step(&st);
                                compare(ctx, &r, &m, &format!("values {:?} {:?}", w, w2));
                                ctx.trans(1);
                            }
                            let mut f = Fp::new("plotval");
                            f.fs(&w).fs(&w2).u(n as u64);
                            ctx.state(f.0);
                            ctx.trace();
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // longer histories on landscapes, clearing now and then: storage is kept
    for n in [1usize, 2, 5] {
        jobs.push(job(format!("long/n{}", n), move |ctx| {
            for k in all_kinds() {
                for gap in [0usize, 7, 40] {
                    for every in [1usize, 5, 33, 1000] {
                        let mut cfg = Cfg::quiet(n, 6);
                        cfg.plot = Some((gap, false));
                        let mut r = Run::new(&cfg, kpol(k));
                        let mut m = PlotModel::new(gap, &r.last);
                        for g in 0..tier.pick(60, 300) {
                            let st = r.next();
                            if !st.after.finite() {
                                break;
                            }
                            m.step(&st);
                            if g % every == every - 1 {
                                let c = r.es.get_plot().unwrap().capacity();
                                r.es.get_mut_plot().unwrap().clear();
                                m.clear();
                                if r.es.get_plot().unwrap().capacity() != c {
                                    ctx.viol("clear-capacity", format!("clearing changes the capacity from {} to {}", c, r.es.get_plot().unwrap().capacity()));
                                }
                            }
                            if g % 5 == 0 || g % every == every - 1 {
                                compare(ctx, &r, &m, &format!("{:?} gap {} cleared every {} at generation {}", k, gap, every, g + 1));
                            }
                            ctx.trans(1);
                        }
                        let mut f = Fp::new("plotlong");
                        f.u(n as u64).u(gap as u64).u(every as u64);
                        r.last.fp(&mut f);
                        ctx.state(f.0);
                        ctx.trace();
                    }
                }
            }
        }));
    }
    jobs.push(job("disabled", move |ctx| {
        for n in [1usize, 3] {
            let mut r = Run::new(&Cfg::quiet(n, 4), kpol(Kind::Sphere));
            for _ in 0..5 {
                r.es.add_plot_point();
                if r.es.get_plot().is_some() || r.es.get_mut_plot().is_some() {
                    ctx.viol("disabled", "there is a plot although plotting is not enabled");
                }
                r.next();
                ctx.trans(1);
            }
            let _ = r.es.next();
            ctx.state(n as u64);
            ctx.trace();
        }
        let o = PlotOptions::new(7, true);
        if o.min_gap_evals != 7 || !o.scientific_notation {
            ctx.viol("options", "plot options differ from what was given");
        }
    }));
    jobs
}

// ---------------------------------------------------------------------------------------------
// P29

/// Image size of a PNG file
fn png_size(p: &Path) -> Result<(u32, u32), String> {
    let b = std::fs::read(p).map_err(|e| format!("{}", e))?;
    if b.len() < 33 || b[..8] != [0x89, b'P', b'N', b'G', 13, 10, 26, 10] || &b[12..16] != b"IHDR" {
        return Err(format!("not a PNG image ({} bytes)", b.len()));
    }
    if &b[b.len() - 8..b.len() - 4] != b"IEND" {
        return Err(format!("the image is cut off ({} bytes)", b.len()));
    }
    let u = |i: usize| u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    Ok((u(16), u(20)))
}

fn save(ctx: &mut Ctx, r: &Run, what: &str) -> Option<Vec<u8>> {
    let path = scratch_dir().join("plot.png");
    let _ = std::fs::remove_file(&path);
    let p = r.es.get_plot().unwrap();
    let dbg = format!("{:?}", p);
    let (len, cap) = (p.len(), p.capacity());
    ctx.trans(1);
    match guarded(|| p.save_to_file(&path, false).map_err(|e| e.to_string())) {
        Err(pn) => {
            ctx.viol("panic", format!("{}: saving panicked: {}", what, pn));
            return None;
        }
        Ok(Err(e)) => {
            ctx.viol("error", format!("{}: saving failed: {}", what, e));
            return None;
        }
        Ok(Ok(())) => (),
    }
    match png_size(&path) {
        Ok((1200, 1200)) => (),
        x => ctx.viol("image", format!("{}: {:?}", what, x)),
    }
    let p = r.es.get_plot().unwrap();
    if p.len() != len || p.capacity() != cap || format!("{:?}", p) != dbg {
        ctx.viol("changed", format!("{}: saving changes the plot", what));
    }
    let b = std::fs::read(&path).ok();
    let _ = std::fs::remove_file(&path);
    b
}

pub fn p29(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    let alpha = [f64::NEG_INFINITY, -f64::MAX, -1.0, -1e-300, 0.0, 5e-324, 1e-20, 1.0, f64::MAX, f64::INFINITY];
    // all words of best values over the first generations
    for mode in MODES {
        for (ai, a) in alpha.into_iter().enumerate() {
            jobs.push(job(format!("values/{}/{}", mname(mode), ai), move |ctx| {
                for b in alpha {
                    for third in [None, Some(-1.0), Some(f64::MAX), Some(f64::INFINITY)] {
                        if third.is_some() && tier == Tier::Quick && b != 0.0 && b != 1.0 && b != f64::NEG_INFINITY {
                            continue;
                        }
                        let mut cfg = Cfg::quiet(1, 2).mode(mode);
                        cfg.plot = Some((0, false));
                        let seq: Vec<f64> = [Some(a), Some(b), third].into_iter().flatten().collect();
                        let s2 = seq.clone();
                        let mut r = Run::new(&cfg, Box::new(move |q| s2[q.step.min(s2.len() - 1)]));
                        for _ in 0..seq.len() {
                            r.next();
                        }
                        save(ctx, &r, &format!("best values {:?} ({})", seq, mname(mode)));
                        let mut f = Fp::new("save");
                        f.fs(&seq).u((mode == Mode::Maximize) as u64);
                        ctx.state(f.0);
                        ctx.trace();
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // different best and median values within a generation
    for mode in MODES {
        jobs.push(job(format!("medians/{}", mname(mode)), move |ctx| {
            for a in alpha {
                for b in alpha {
                    let mut cfg = Cfg::quiet(1, 2).mode(mode);
                    cfg.plot = Some((0, true));
                    let mut r = Run::new(&cfg, wpol(vec![vec![a, b]]));
                    r.next();
                    if tier == Tier::Thorough {
                        r.next();
                    }
                    save(ctx, &r, &format!("values {:?} in one generation ({})", (a, b), mname(mode)));
                    let mut f = Fp::new("savemed");
                    f.f(a).f(b).u((mode == Mode::Maximize) as u64);
                    ctx.state(f.0);
                    ctx.trace();
                }
            }
        }));
    }
    // means x step sizes x notation x points
    let mags = [0.0, 5e-324, 1e-300, 1.0, 1e15, 1e300, f64::MAX];
    let sigs = [f64::MIN_POSITIVE, 1e-200, 1e-10, 1.0, 1e10, 1e200, f64::MAX];
    for (mi, m) in mags.into_iter().enumerate() {
        for sgn in [1.0, -1.0] {
            jobs.push(job(format!("means/{}/{}", mi, sgn), move |ctx| {
                for s in sigs {
                    for n in [1usize, 2] {
                        for steps in [0usize, 1, 2] {
                            if tier == Tier::Quick && n == 2 && steps == 1 {
                                continue;
                            }
                            let mean: Vec<f64> = (0..n).map(|i| if i == 0 { m * sgn } else { -m * sgn }).collect();
                            let mut cfg = Cfg::quiet(n, 4).at(mean, s);
                            cfg.plot = Some((0, (steps + n) % 2 == 0));
                            let mut r = Run::new(&cfg, kpol(Kind::Index));
                            for _ in 0..steps {
                                r.next();
                            }
                            save(ctx, &r, &format!("mean {:e} step size {:e} n={} after {} generations", m * sgn, s, n, steps));
                            let mut f = Fp::new("savemean");
                            f.f(m * sgn).f(s).u(n as u64).u(steps as u64);
                            ctx.state(f.0);
                            ctx.trace();
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // dimensions around and beyond the legend limit, single points, longer histories, cleared
    for n in tier.pick(vec![1usize, 2, 3, 9, 10, 11, 19, 20, 21, 22, 40], (1..45).collect()) {
        jobs.push(job(format!("dims/{}", n), move |ctx| {
            for steps in [0usize, 1, 3, 40] {
                for sci in [false, true] {
                    for mode in MODES {
                        if steps == 40 && sci && mode == Mode::Maximize {
                            continue;
                        }
                        let mut cfg = Cfg::new(vec![1.0; n], 1.0).mode(mode);
                        cfg.plot = Some((0, sci));
                        let mut r = Run::new(&cfg, kpol(if mode == Mode::Maximize { Kind::AntiSphere } else { Kind::Sphere }));
                        for _ in 0..steps {
                            r.next();
                        }
                        save(ctx, &r, &format!("n={} after {} generations", n, steps));
                        if steps == 40 {
                            r.es.get_mut_plot().unwrap().clear();
                            save(ctx, &r, &format!("n={} cleared after {} generations", n, steps));
                            r.next();
                            save(ctx, &r, &format!("n={} a generation after clearing", n));
                        }
                        let mut f = Fp::new("savedim");
                        f.u(n as u64).u(steps as u64).u(sci as u64).u((mode == Mode::Maximize) as u64);
                        ctx.state(f.0);
                        ctx.trace();
                    }
                }
            }
        }));
    }
    // landscapes, followed beyond termination into degenerate distributions
    for (ki, k) in all_kinds().into_iter().enumerate() {
        jobs.push(job(format!("landscapes/{}", ki), move |ctx| {
            for (n, steps) in [(1usize, 30usize), (2, 300), (2, tier.pick(700, 3000)), (5, 60)] {
                let mut cfg = Cfg::quiet(n, 6).at(vec![0.5; n], 0.7);
                cfg.plot = Some((3, false));
                let mut r = Run::new(&cfg, kpol(k));
                for _ in 0..steps {
                    r.raw_next();
                }
                save(ctx, &r, &format!("{:?} n={} after {} generations", k, n, steps));
                let mut f = Fp::new("saveland");
                f.u(ki as u64).u(n as u64).u(steps as u64);
                ctx.state(f.0);
                ctx.trace();
            }
        }));
    }
    // paths
    jobs.push(job("paths", move |ctx| {
        let base = scratch_dir().join("paths");
        let _ = std::fs::remove_dir_all(&base);
        std::fs::create_dir_all(&base).unwrap();
        let mut cfg = Cfg::quiet(2, 4);
        cfg.plot = Some((0, false));
        let mut r = Run::new(&cfg, kpol(Kind::Sphere));
        for _ in 0..5 {
            r.next();
        }
        let p = r.es.get_plot().unwrap();
        std::fs::write(base.join("file"), b"x").unwrap();
        std::fs::create_dir(base.join("dir.png")).unwrap();
        let long = "x".repeat(300) + ".png";
        // path, create directories, must succeed
        let cases: Vec<(std::path::PathBuf, bool, bool)> = vec![
            (base.join("a.png"), false, true),
            (base.join("a.png"), true, true),
            (base.join("new1/b.png"), false, false),
            (base.join("new2/b.png"), true, true),
            (base.join("new3/c/d/e/f.png"), true, true),
            (base.join("new2/b.png"), false, true),
            (base.join("file/x.png"), false, false),
            (base.join("file/x.png"), true, false),
            (base.join("dir.png"), false, false),
            (base.join("dir.png"), true, false),
            (base.join(&long), false, false),
            (base.join(&long), true, false),
            (base.join("noext"), false, false),
            (base.join("odd.xyz"), true, false),
            (std::path::PathBuf::from(""), false, false),
            (std::path::PathBuf::from(""), true, false),
            (std::path::PathBuf::from("/"), true, false),
            (base.join("b/../c.png"), true, true),
            (base.join("\u{fc}ml\u{e4}ut.png"), true, true),
            (base.join("two words.png"), true, true),
        ];
        for (path, create, ok) in cases {
            let existed = path.parent().map_or(false, |p| p.is_dir());
            ctx.trans(1);
            let mut f = Fp::new("path");
            f.s(&path.to_string_lossy()).u(create as u64);
            ctx.state(f.0);
            match guarded(|| p.save_to_file(&path, create).map_err(|e| e.to_string())) {
                Err(pn) => ctx.viol("path-panic", format!("saving to {:?} (create directories: {}) panicked: {}", path, create, pn)),
                Ok(Ok(())) if !ok => ctx.viol("path", format!("saving to {:?} (create directories: {}) reports success", path, create)),
                Ok(Err(e)) if ok => ctx.viol("path", format!("saving to {:?} (create directories: {}) failed: {}", path, create, e)),
                Ok(Ok(())) => match png_size(&path) {
                    Ok((1200, 1200)) => (),
                    x => ctx.viol("image", format!("{:?}: {:?}", path, x)),
                },
                Ok(Err(_)) => {
                    if !create && !existed && path.parent().map_or(false, |p| p != Path::new("") && p.is_dir()) {
                        ctx.viol("path-created", format!("saving to {:?} created a directory unasked", path));
                    }
                }
            }
        }
        // relative to the working directory
        let old = std::env::current_dir().unwrap();
        std::env::set_current_dir(&base).unwrap();
        for (rel, create) in [("rel.png", false), ("rel2.png", true), ("./rel3.png", true), ("sub/rel4.png", true)] {
            match guarded(|| p.save_to_file(rel, create).map_err(|e| e.to_string())) {
                Ok(Ok(())) if png_size(&base.join(rel)) == Ok((1200, 1200)) => (),
                x => ctx.viol("path", format!("saving to {:?} relative to the working directory: {:?}", rel, x)),
            }
            ctx.trans(1);
        }
        std::env::set_current_dir(old).unwrap();
        let _ = std::fs::remove_dir_all(&base);
        ctx.trace();
    }));
    // the image shows the data: equal histories give equal images, each recorded quantity changes it
    jobs.push(job("content", move |ctx| {
        let mk = |mean: f64, sigma: f64, k: Kind, steps: usize, sci: bool, gap: usize| {
            let mut cfg = Cfg::quiet(2, 4).at(vec![mean, 1.0], sigma);
            cfg.plot = Some((gap, sci));
            let mut r = Run::new(&cfg, kpol(k));
            for _ in 0..steps {
                r.next();
            }
            r
        };
        let base = (0.5, 1.0, Kind::Sphere, 12, false, 0);
        let go = |ctx: &mut Ctx, c: (f64, f64, Kind, usize, bool, usize)| save(ctx, &mk(c.0, c.1, c.2, c.3, c.4, c.5), &format!("{:?}", c));
        let a = go(ctx, base);
        if a != go(ctx, base) {
            ctx.viol("content", "two equal histories give different images");
        }
        for c in [(0.9, 1.0, Kind::Sphere, 12, false, 0), (0.5, 3.0, Kind::Sphere, 12, false, 0), (0.5, 1.0, Kind::Rosen, 12, false, 0), (0.5, 1.0, Kind::Sphere, 9, false, 0), (0.5, 1.0, Kind::Sphere, 12, true, 0), (0.5, 1.0, Kind::Sphere, 12, false, 13)] {
            if a == go(ctx, c) {
                ctx.viol("content", format!("the image does not change from {:?} to {:?}", base, c));
            }
            ctx.state(c.3 as u64);
        }
        ctx.trace();
    }));
    jobs
}
