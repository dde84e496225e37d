//! P30: automatic printing.

use super::core::cfg_fp;
use crate::rt::*;
use crate::sim::*;
use cmaes::{Mode, Weights};
use serde_json::json;

#[derive(Clone, Debug)]
struct Line {
    gen: usize,
    evals: usize,
    best: Option<f64>,
    axis: f64,
    sigma: f64,
    min: f64,
    max: f64,
}

fn num(s: &str) -> Option<f64> {
    s.trim().parse::<f64>().ok()
}

/// A line of the table
fn table(l: &str) -> Option<Line> {
    let c: Vec<&str> = l.split('|').collect();
    if c.len() != 7 {
        return None;
    }
    Some(Line {
        gen: c[0].trim().parse().ok()?,
        evals: c[1].trim().parse().ok()?,
        best: if c[2].trim().is_empty() { None } else { Some(num(c[2])?) },
        axis: num(c[3])?,
        sigma: num(c[4])?,
        min: num(c[5])?,
        max: num(c[6])?,
    })
}

fn expect(s: &Snap) -> Line {
    let d: Vec<f64> = (0..s.mean.len()).map(|i| s.cov.at(i, i)).collect();
    Line {
        gen: s.gen,
        evals: s.evals,
        best: s.cur.as_ref().map(|c| c.1),
        axis: s.axis,
        sigma: s.sigma,
        min: s.sigma * d.iter().cloned().fold(f64::INFINITY, f64::min).sqrt(),
        max: s.sigma * d.iter().cloned().fold(f64::NEG_INFINITY, f64::max).sqrt(),
    }
}

/// printed with a limited number of digits
pub fn shows(p: f64, v: f64, rel: f64) -> bool {
    p == v || (p.is_nan() && v.is_nan()) || (p - v).abs() <= rel * v.abs() + 1e-322
}

fn matches(p: &Line, w: &Line) -> bool {
    p.gen == w.gen
        && p.evals == w.evals
        && match (p.best, w.best) {
            (None, None) => true,
            (Some(a), Some(b)) => shows(a, b, 1e-9),
            _ => false,
        }
        && shows(p.axis, w.axis, 6e-3)
        && shows(p.sigma, w.sigma, 6e-3)
        && shows(p.min, w.min, 6e-3)
        && shows(p.max, w.max, 6e-3)
}

fn header(ctx: &mut Ctx, cfg: &Cfg, seed: u64, out: &str, what: &str) -> usize {
    let l: Vec<&str> = out.lines().collect();
    let variant = if matches!(cfg.weights, None | Some(Weights::Negative)) { "aCMA-ES" } else { "CMA-ES" };
    let want = format!("{} with dimension={}, lambda={}, seed={}", variant, cfg.dim(), cfg.lambda(), seed);
    if l.first() != Some(&want.as_str()) {
        ctx.viol("header", format!("{}: the first line is {:?}, expected {:?}", what, l.first(), want));
    }
    // up to the first line of dashes
    let mut k = 1;
    while k < l.len() && table(l[k]).is_none() && !l[k].starts_with("Terminated") {
        k += 1;
    }
    if k == 1 || k > 4 || l[1..k].iter().any(|x| x.contains(" with dimension=")) {
        ctx.viol("header", format!("{}: {} header lines: {:?}", what, k, &l[..k.min(l.len())]));
    }
    if out.matches(" with dimension=").count() != 1 {
        ctx.viol("header", format!("{}: the header is printed {} times", what, out.matches(" with dimension=").count()));
    }
    k
}

/// Lines due for the steps of a run, as (must, line)
struct Cadence {
    gap: usize,
    last: usize,
    /// evaluations shown by the last line
    shown: Option<(usize, usize)>,
}

impl Cadence {
    fn due(&mut self, s: &Snap) -> bool {
        if s.evals >= self.last.saturating_add(self.gap) {
            self.last = s.evals;
        } else if s.gen >= 4 {
            return false;
        }
        self.shown = Some((s.gen, s.evals));
        true
    }
}

fn check_lines(ctx: &mut Ctx, got: &[&str], want: &[Line], optional_last: bool, what: &str) -> bool {
    let p: Vec<Option<Line>> = got.iter().map(|l| table(l)).collect();
    if let Some(i) = p.iter().position(|x| x.is_none()) {
        ctx.viol("line", format!("{}: unexpected line {:?}", what, got[i]));
        return false;
    }
    let ok_len = p.len() == want.len() || (optional_last && p.len() + 1 == want.len());
    if !ok_len {
        ctx.viol(
            "cadence",
            format!("{}: lines for generations {:?}, expected {:?}", what, p.iter().flatten().map(|l| l.gen).collect::<Vec<_>>(), want.iter().map(|l| l.gen).collect::<Vec<_>>()),
        );
        return false;
    }
    for (a, b) in p.iter().flatten().zip(want) {
        if !matches(a, b) {
            ctx.viol("values", format!("{}: line {:?}, expected {:?}", what, a, b));
            return false;
        }
    }
    true
}

fn floats(s: &str) -> Vec<f64> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+')).filter_map(|t| t.parse::<f64>().ok()).collect()
}

/// A whole run: `cfg.print` set
fn run(ctx: &mut Ctx, cfg: &Cfg, mk: &dyn Fn() -> Pol, par: bool, what: &str) {
    let gap = cfg.print.unwrap();
    let mut q = cfg.clone();
    q.print = None;
    // the silent, stepped twin
    let mut t = Run::new(&q, mk()).auto();
    let mut cad = Cadence { gap, last: 0, shown: None };
    let mut want = vec![];
    let td;
    let mut steps = 0;
    loop {
        let st = t.next();
        steps += 1;
        if st.after.gen != st.before.gen {
            if cad.due(&st.after) {
                want.push(expect(&st.after));
            }
        }
        if let Some(o) = st.out {
            td = o;
            break;
        }
    }
    let aborted = td.reasons.iter().any(|r| matches!(r, TR::InvalidFunctionValue | TR::PosDefCov));
    // the final state, unless shown already. After an aborted generation the line shows more evaluations for the same
    // generation: printing it or not are both accepted if that generation has been shown.
    let last = Snap::of(&t.es);
    let mut optional = false;
    match cad.shown {
        Some((g, _)) if g == last.gen && !aborted => (),
        Some((g, e)) if g == last.gen => {
            optional = true;
            let _ = e;
            want.push(expect(&last));
        }
        _ => {
            optional = aborted && last.gen == 0;
            want.push(expect(&last));
        }
    }
    let (r, out) = capture(|| {
        let mut r = Run::new(cfg, mk()).auto();
        let td = if par { r.es.run_parallel() } else { r.es.run() };
        (r, td)
    });
    let (r, td2) = r;
    ctx.trans(steps);
    ctx.trace();
    let mut f = Fp::new("print");
    f.u(cfg_fp(cfg)).s(what).u(last.evals as u64);
    ctx.state(f.0);
    if td2.reasons != td.reasons {
        ctx.viol("disturbed", format!("{}: printing changes the outcome: {:?} vs {:?}", what, td2.reasons, td.reasons));
        return;
    }
    let seed = r.es.parameters().seed();
    let k = header(ctx, cfg, seed, &out, what);
    let l: Vec<&str> = out.lines().collect();
    let e = l.iter().position(|x| x.starts_with("Terminated")).unwrap_or(l.len());
    if k > e {
        return;
    }
    check_lines(ctx, &l[k..e], &want, optional, &format!("{} (gap {}, lambda {})", what, gap, cfg.lambda()));
    // the summary
    if e == l.len() {
        ctx.viol("summary", format!("{}: no summary: {:?}", what, l.last()));
        return;
    }
    for r in &td.reasons {
        if !l[e].contains(&format!("{:?}", r)) {
            ctx.viol("summary", format!("{}: {:?} does not name {:?}", what, l[e], r));
        }
    }
    let named = l[e].split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| w.len() > 3 && !["Terminated", "with", "reason"].contains(w)).count();
    if named != td.reasons.len() {
        ctx.viol("summary", format!("{}: {:?} for {:?}", what, l[e], td.reasons));
    }
    for (key, v) in [("Current best function value:", &last.cur), ("Overall best function value:", &last.best)] {
        let got: Vec<&&str> = l[e..].iter().filter(|x| x.starts_with(key)).collect();
        match v {
            None => {
                if !got.is_empty() {
                    ctx.viol("summary", format!("{}: {:?} without a best value", what, got));
                }
            }
            Some((_, v)) => {
                let ok = got.len() == 1 && num(&got[0][key.len()..]).map_or(false, |x| shows(x, *v, 1e-12));
                if !ok {
                    ctx.viol("summary", format!("{}: {:?}, expected {:e}", what, got, v));
                }
            }
        }
    }
    let i = out.find("Final mean:");
    match i {
        None => ctx.viol("summary", format!("{}: no final mean", what)),
        Some(i) => {
            let got = floats(&out[i + "Final mean:".len()..]);
            // a matrix is displayed with a limited number of decimals
            let ok = got.len() == last.mean.len() && got.iter().zip(&last.mean).all(|(a, b)| (a - b).abs() <= 1e-3 * b.abs().max(1.0));
            if !ok {
                ctx.viol("summary", format!("{}: prints the final mean {:?}, it is {:?}", what, got, last.mean));
            }
        }
    }
    if out.matches("Terminated").count() != 1 {
        ctx.viol("summary", format!("{}: the summary is printed {} times", what, out.matches("Terminated").count()));
    }
    ctx.sample(|| json!({"what": what, "gap": gap, "lambda": cfg.lambda(), "generations_shown": want.iter().map(|w| w.gen).collect::<Vec<_>>(), "reasons": format!("{:?}", td.reasons)}));
}

pub fn p30(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    // every gap x length x population
    for l in tier.pick(vec![2usize, 3, 4, 7], (2..12).collect()) {
        for par in [false, true] {
            jobs.push(job(format!("cadence/l{}/par{}", l, par), move |ctx| {
                for gens in tier.pick((1usize..14).chain([20, 33]).collect::<Vec<_>>(), (1..40).collect()) {
                    let mut gaps = vec![0usize, 1, l - 1, l, l + 1, 2 * l - 1, 2 * l, 2 * l + 1, 3 * l, 4 * l, 5 * l - 1, 10 * l, gens * l - 1, gens * l, gens * l + 1, 200, usize::MAX];
                    gaps.sort();
                    gaps.dedup();
                    for gap in gaps {
                        for k in [Kind::Sphere, Kind::Const(2.5)] {
                            let mut cfg = Cfg::quiet(2, l);
                            cfg.print = Some(gap);
                            cfg.max_gens = Some(gens);
                            run(ctx, &cfg, &|| kpol(k), par, &format!("{} generations of {:?}", gens, k));
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // every kind of termination, dimensions, variants, landscapes
    for n in tier.pick(vec![1usize, 2, 5, 12], vec![1, 2, 3, 5, 8, 12, 25]) {
        for w in [None, Some(Weights::Negative), Some(Weights::Positive), Some(Weights::Uniform)] {
            jobs.push(job(format!("kinds/n{}/{}", n, w.map_or("default", wname)), move |ctx| {
                for k in all_kinds() {
                    // policies that look at the current mean need stepping
                    if matches!(k, Kind::Near | Kind::Far | Kind::NearK(_) | Kind::FarK(_) | Kind::Cycle(_)) {
                        continue;
                    }
                    for gap in [0usize, 23, 200] {
                        for mode in [None, Some(Mode::Maximize)] {
                            let mut cfg = Cfg::new(vec![0.7; n], 0.5);
                            cfg.weights = w;
                            cfg.mode = mode;
                            cfg.print = Some(gap);
                            cfg.max_gens = Some(tier.pick(120, 600));
                            cfg.seed = Some(n as u64 * 7 + gap as u64);
                            run(ctx, &cfg, &|| kpol(k), false, &format!("{:?} n={} {:?} {:?}", k, n, w, mode));
                            if ctx.full() {
                                return;
                            }
                        }
                    }
                }
            }));
        }
    }
    // every single criterion ends a run
    jobs.push(job("criteria", move |ctx| {
        for c in 0..9 {
            for gap in [0usize, 5, 11, 60, 1000] {
                for l in [4usize, 6] {
                    let mut cfg = Cfg::quiet(2, l);
                    cfg.print = Some(gap);
                    let mut k = Kind::Sphere;
                    match c {
                        0 => cfg.max_evals = Some(33),
                        1 => cfg.fun_target = Some(0.05),
                        2 => cfg.tol_fun = Some(1e-3),
                        3 => cfg.tol_fun_rel = Some(1e-2),
                        4 => cfg.tol_fun_hist = Some(1e-3),
                        5 => cfg.tol_x = Some(1e-2),
                        6 => {
                            cfg.tol_stag = Some(15);
                            k = Kind::Hash(4);
                        }
                        7 => {
                            cfg.tol_x_up = Some(1.3);
                            k = Kind::AntiSphere;
                        }
                        _ => {
                            cfg.tol_cond = Some(3.0);
                            k = Kind::Elli(3.0);
                        }
                    }
                    cfg.max_gens = Some(400);
                    run(ctx, &cfg, &|| kpol(k), c % 2 == 1, &format!("criterion {}", c));
                }
            }
        }
    }));
    // an invalid value at every evaluation
    for l in [2usize, 5] {
        jobs.push(job(format!("invalid/l{}", l), move |ctx| {
            for at in 0..tier.pick(12 * l, 40 * l) {
                for gap in [0usize, 1, l, 2 * l, 3 * l + 1, 1000] {
                    let mut cfg = Cfg::quiet(2, l);
                    cfg.print = Some(gap);
                    run(
                        ctx,
                        &cfg,
                        &|| {
                            let mut c = 0;
                            Box::new(move |_q: &Q| {
                                c += 1;
                                if c - 1 == at {
                                    f64::NAN
                                } else {
                                    hash01(1, c as u64)
                                }
                            })
                        },
                        false,
                        &format!("invalid value at evaluation {}", at),
                    );
                }
            }
        }));
    }
    // magnitudes and signs of every printed quantity
    jobs.push(job("magnitudes", move |ctx| {
        for v in [f64::NEG_INFINITY, -f64::MAX, -1e100, -1.0, -1e-10, -1e-310, -0.0, 0.0, 5e-324, 1e-100, 0.1, 9.999999999999e9, 99999.5, 1e100, f64::MAX, f64::INFINITY] {
            for s in [1e-300, 1e-5, 0.99999, 1.0, 123456.0, 1e200] {
                for mode in MODES {
                    let mut cfg = Cfg::quiet(2, 3).mode(mode).at(vec![0.0, 1.0], s);
                    cfg.print = Some(0);
                    cfg.max_gens = Some(5);
                    run(ctx, &cfg, &|| kpol(Kind::Const(v)), false, &format!("value {:e} step size {:e}", v, s));
                }
            }
        }
    }));
    // stepping by hand: the same lines, and no summary of its own
    for gap in [0usize, 5, 12, 30] {
        jobs.push(job(format!("steps/gap{}", gap), move |ctx| {
            for par in [false, true] {
                for l in [4usize, 5] {
                    let mut cfg = Cfg::quiet(3, l);
                    cfg.print = Some(gap);
                    let (mut r, out) = capture(|| Run::new(&cfg, kpol(Kind::Rosen)));
                    header(ctx, &cfg, 1, &out, "stepping");
                    let mut cad = Cadence { gap, last: 0, shown: None };
                    for g in 0..30 {
                        let (st, out) = capture(|| if par { r.next_parallel() } else { r.next() });
                        let due = cad.due(&st.after);
                        let want = if due { vec![expect(&st.after)] } else { vec![] };
                        let l2: Vec<&str> = out.lines().collect();
                        check_lines(ctx, &l2, &want, false, &format!("stepping, generation {} (gap {}, lambda {})", g + 1, gap, l));
                        // by hand
                        let (_, out) = capture(|| r.es.print_info());
                        let l2: Vec<&str> = out.lines().collect();
                        check_lines(ctx, &l2, &[expect(&r.last)], false, "print_info");
                        let (_, out) = capture(|| r.es.print_final_info(&[TR::TolFun, TR::MaxTime]));
                        let l2: Vec<&str> = out.lines().collect();
                        let e = l2.iter().position(|x| x.starts_with("Terminated")).unwrap_or(l2.len());
                        let want = if due { vec![] } else { vec![expect(&r.last)] };
                        check_lines(ctx, &l2[..e], &want, false, &format!("print_final_info in generation {} (gap {}, lambda {})", g + 1, gap, l));
                        if e == l2.len() || !l2[e].contains("TolFun") || !l2[e].contains("MaxTime") {
                            ctx.viol("summary", format!("print_final_info prints {:?}", l2));
                        }
                        ctx.trans(1);
                        let mut f = Fp::new("printstep");
                        f.u(gap as u64).u(g).u(l as u64);
                        ctx.state(f.0);
                    }
                    ctx.trace();
                }
            }
        }));
    }
    // disabled
    jobs.push(job("silent", move |ctx| {
        for k in [Kind::Sphere, Kind::Const(1.0), Kind::Rastrigin, Kind::Infs(2), Kind::AntiSphere] {
            for n in [1usize, 3] {
                for plot in [None, Some((0, true))] {
                    for nan in [false, true] {
                        let mut cfg = Cfg::new(vec![0.4; n], 0.5);
                        cfg.plot = plot;
                        cfg.max_gens = Some(80);
                        let (_, out) = capture(|| {
                            let mut c = 0;
                            let mut r = Run::new(&cfg, Box::new(move |q| {
                                c += 1;
                                if nan && c == 50 { f64::NAN } else { kind_value(k, q) }
                            }));
                            for _ in 0..3 {
                                r.next();
                            }
                            r.next_parallel();
                            let _ = r.es.run();
                            let _ = r.es.run_parallel();
                        });
                        if !out.is_empty() {
                            ctx.viol("silent", format!("prints {:?} although printing is disabled", out));
                        }
                        ctx.trans(1);
                        let mut f = Fp::new("silent");
                        f.s(&format!("{:?}", k)).u(n as u64).u(nan as u64);
                        ctx.state(f.0);
                        ctx.trace();
                    }
                }
            }
        }
    }));
    jobs
}
