//! P37: what the saved image shows, read back from its pixels.

use super::plot::{Point, PlotModel};
use crate::rt::*;
use crate::sim::*;
use cmaes::Mode;
use serde_json::json;

type Rgb = [u8; 3];

pub struct Img {
    w: usize,
    h: usize,
    px: Vec<Rgb>,
}

impl Img {
    fn at(&self, x: i64, y: i64) -> Rgb {
        if x < 0 || y < 0 || x >= self.w as i64 || y >= self.h as i64 {
            [255; 3]
        } else {
            self.px[y as usize * self.w + x as usize]
        }
    }
    fn panel(&self, col: usize, row: usize) -> Img {
        let (w, h) = (self.w / 2, self.h / 2);
        let mut px = Vec::with_capacity(w * h);
        for y in 0..h {
            let o = (row * h + y) * self.w + col * w;
            px.extend_from_slice(&self.px[o..o + w]);
        }
        Img { w, h, px }
    }
}

pub fn decode(b: &[u8]) -> Result<Img, String> {
    let d = png::Decoder::new(b);
    let mut r = d.read_info().map_err(|e| e.to_string())?;
    let mut buf = vec![0; r.output_buffer_size()];
    let i = r.next_frame(&mut buf).map_err(|e| e.to_string())?;
    let k = match i.color_type {
        png::ColorType::Rgb => 3,
        png::ColorType::Rgba => 4,
        c => return Err(format!("colour type {:?}", c)),
    };
    Ok(Img { w: i.width as usize, h: i.height as usize, px: buf[..i.buffer_size()].chunks(k).map(|c| [c[0], c[1], c[2]]).collect() })
}

fn dist(a: Rgb, b: Rgb) -> i32 {
    (0..3).map(|i| (a[i] as i32 - b[i] as i32).abs()).sum()
}

/// the colour at full strength
fn pure(p: Rgb, c: Rgb) -> bool {
    dist(p, c) <= 48
}

/// the colour, possibly smoothed with the white background
fn tinted(p: Rgb, c: Rgb) -> bool {
    // p = white + a (c - white)
    let d: Vec<f64> = (0..3).map(|i| c[i] as f64 - 255.0).collect();
    let e: Vec<f64> = (0..3).map(|i| p[i] as f64 - 255.0).collect();
    let a = d.iter().zip(&e).map(|(x, y)| x * y).sum::<f64>() / d.iter().map(|x| x * x).sum::<f64>();
    a >= 0.4 && d.iter().zip(&e).map(|(x, y)| (y - a * x).abs()).sum::<f64>() <= 90.0
}

/// text
fn dark(p: Rgb) -> bool {
    let (a, b) = (*p.iter().min().unwrap(), *p.iter().max().unwrap());
    b < 120 && b - a < 60
}

/// white, or the grid
fn background(p: Rgb) -> bool {
    let (a, b) = (*p.iter().min().unwrap(), *p.iter().max().unwrap());
    a >= 180 && b - a < 30
}

const CYAN: Rgb = [0, 255, 255];
const BLUE: Rgb = [0, 0, 255];
const MAGENTA: Rgb = [255, 0, 255];
const GREEN: Rgb = [0, 255, 0];
const RED: Rgb = [255, 0, 0];
const PER_AXIS: [Rgb; 21] = [
    [230, 25, 75],
    [60, 180, 75],
    [255, 225, 25],
    [0, 130, 200],
    [245, 130, 48],
    [145, 30, 180],
    [70, 240, 240],
    [240, 50, 230],
    [210, 245, 60],
    [250, 190, 190],
    [0, 128, 128],
    [230, 190, 255],
    [170, 110, 40],
    [255, 250, 200],
    [128, 0, 0],
    [170, 255, 195],
    [128, 128, 0],
    [255, 215, 180],
    [0, 0, 128],
    [128, 128, 128],
    [0, 0, 0],
];

#[derive(Debug)]
struct Series {
    name: String,
    color: Rgb,
    /// pieces of the curve
    pieces: Vec<Vec<(f64, f64)>>,
}

struct Panel {
    name: &'static str,
    log: bool,
    legend: bool,
    series: Vec<Series>,
    marker: Option<(f64, f64)>,
}

fn off(x: f64) -> f64 {
    x.abs() + 1e-20
}

/// What the four panels must show
fn expected(mode: Mode, pts: &[Point]) -> [Panel; 4] {
    let curve = |f: &dyn Fn(&Point) -> f64| -> Vec<(f64, f64)> { pts.iter().map(|p| (p.evals as f64, f(p))).filter(|p| p.1.is_finite()).collect() };
    // the first best point among the finite ones
    let mut best: Option<(usize, f64)> = None;
    for (i, p) in pts.iter().enumerate() {
        if p.best.is_finite() && best.map_or(true, |b| if mode == Mode::Maximize { p.best > b.1 } else { p.best < b.1 }) {
            best = Some((i, p.best));
        }
    }
    let mut series = vec![];
    let mut marker = None;
    if let Some((bi, bv)) = best {
        let again = pts.iter().filter(|p| p.best == bv).count() > 1;
        let d = |p: &Point| (p.evals as f64, off(p.best - bv));
        let left = pts[..if again { bi + 1 } else { bi }].iter().map(d).filter(|p| p.1.is_finite()).collect();
        let right = pts[bi + 1..].iter().map(d).filter(|p| p.1.is_finite()).collect();
        series.push(Series { name: "distance to the best value".into(), color: CYAN, pieces: vec![left, right] });
        marker = Some((pts[bi].evals as f64, off(bv)));
    }
    series.push(Series { name: "best value".into(), color: BLUE, pieces: vec![curve(&|p| off(p.best))] });
    series.push(Series { name: "median value".into(), color: MAGENTA, pieces: vec![curve(&|p| off(p.median))] });
    series.push(Series { name: "step size".into(), color: GREEN, pieces: vec![curve(&|p| off(p.sigma))] });
    series.push(Series { name: "axis ratio".into(), color: RED, pieces: vec![curve(&|p| off(p.axis))] });
    let n = pts[0].mean.len();
    let per = |what: &str, f: &dyn Fn(&Point, usize) -> f64| -> Vec<Series> { (0..n).map(|i| Series { name: format!("{} {}", what, i), color: PER_AXIS[i], pieces: vec![curve(&|p| f(p, i))] }).collect() };
    [
        Panel { name: "values", log: true, legend: true, series, marker },
        Panel { name: "mean", log: false, legend: n <= 18, series: per("mean", &|p, i| p.mean[i]), marker: None },
        Panel { name: "axis scales", log: true, legend: false, series: per("axis scale", &|p, i| off(p.eig[i])), marker: None },
        Panel { name: "coordinate scales", log: true, legend: n <= 18, series: per("coordinate scale", &|p, i| off(p.coord[i])), marker: None },
    ]
}

#[derive(Clone, Copy, Debug)]
struct Rect {
    x0: i64,
    y0: i64,
    x1: i64,
    y1: i64,
}

impl Rect {
    fn has(&self, x: i64, y: i64, m: i64) -> bool {
        x >= self.x0 - m && x <= self.x1 + m && y >= self.y0 - m && y <= self.y1 + m
    }
}

/// The plotting area (right of the left axis, above the bottom axis) and the legend box
fn layout(im: &Img) -> Result<(Rect, Option<Rect>), String> {
    let black = |x: usize, y: usize| im.px[y * im.w + x].iter().all(|v| *v <= 8);
    // longest black runs; curves may cover a few pixels of the axes
    let longest = |k: usize, is: &dyn Fn(usize) -> bool| -> (usize, usize, usize) {
        let mut best = (0, 0, 0);
        let (mut start, mut last) = (None, 0);
        for i in 0..k {
            if is(i) {
                let s = match start {
                    Some(s) if i - last <= 3 => s,
                    _ => i,
                };
                start = Some(s);
                last = i;
                if i - s > best.0 {
                    best = (i - s, s, i);
                }
            }
        }
        best
    };
    let vert = (0..im.w).map(|x| (longest(im.h, &|y| black(x, y)), x)).max_by_key(|r| (r.0 .0, std::cmp::Reverse(r.1))).map(|((l, a, b), x)| (l, x, a, b)).unwrap();
    // the lowest of the long lines: a curve may be a black line as well
    let hs: Vec<_> = (0..im.h).map(|y| (longest(im.w, &|x| black(x, y)), y)).map(|((l, a, b), y)| (l, y, a, b)).collect();
    let top = hs.iter().map(|h| h.0).max().unwrap();
    let hor = *hs.iter().filter(|h| 10 * h.0 >= 9 * top).last().unwrap();
    if vert.0 < im.h / 3 || hor.0 < im.w / 3 {
        return Err(format!("no axes found ({:?}, {:?})", vert, hor));
    }
    let area = Rect { x0: vert.1 as i64, y0: vert.2 as i64, x1: hor.3 as i64, y1: hor.1 as i64 };
    // a rectangle of black lines strictly inside
    let mut runs: Vec<(i64, i64, i64)> = vec![];
    for y in 1..area.y1 - 2 {
        let mut x = area.x0 + 2;
        while x <= area.x1 {
            let s = x;
            while x <= area.x1 + 3 && (x as usize) < im.w && black(x as usize, y as usize) {
                x += 1;
            }
            if x - s >= 40 {
                runs.push((s, x - 1, y));
            }
            x = x.max(s + 1);
        }
    }
    let mut legend = None;
    for (i, a) in runs.iter().enumerate() {
        for b in &runs[i + 1..] {
            if a.0 == b.0 && a.1 == b.1 && b.2 - a.2 >= 15 {
                legend = Some(Rect { x0: a.0, y0: a.2, x1: a.1, y1: b.2 });
            }
        }
    }
    Ok((area, legend))
}

struct Map {
    ax: f64,
    bx: f64,
    ay: f64,
    by: f64,
    log: bool,
}

impl Map {
    fn px(&self, p: (f64, f64)) -> (f64, f64) {
        let v = if self.log { p.1.log10() } else { p.1 };
        (self.ax + self.bx * p.0, self.ay + self.by * v)
    }
}

/// pixels along a polyline, at most one pixel apart
fn trace(m: &Map, pts: &[(f64, f64)]) -> Vec<(i64, i64)> {
    let mut v = vec![];
    for w in pts.windows(2) {
        let (a, b) = (m.px(w[0]), m.px(w[1]));
        let k = ((b.0 - a.0).abs().max((b.1 - a.1).abs()).ceil() as usize).clamp(1, 2000);
        for i in 0..=k {
            let t = i as f64 / k as f64;
            v.push(((a.0 + t * (b.0 - a.0)).round() as i64, (a.1 + t * (b.1 - a.1)).round() as i64));
        }
    }
    v
}

/// Compares a panel with its description under one mapping; the first mismatch, if any
fn fits(im: &Img, p: &Panel, area: &Rect, legend: Option<Rect>, m: &Map) -> Result<u64, String> {
    let tol = 3i64;
    let idx = |x: i64, y: i64| (y as usize) * im.w + x as usize;
    let inside = |x: i64, y: i64| x >= 0 && y >= 0 && (x as usize) < im.w && (y as usize) < im.h;
    let traces: Vec<Vec<(i64, i64)>> = p.series.iter().map(|s| s.pieces.iter().flat_map(|q| trace(m, q)).collect()).collect();
    // halo of each series, and of anything drawn after it
    let halo = |t: &[(i64, i64)], r: i64| {
        let mut h = vec![false; im.w * im.h];
        for &(x, y) in t {
            for dy in -r..=r {
                for dx in -r..=r {
                    if inside(x + dx, y + dy) {
                        h[idx(x + dx, y + dy)] = true;
                    }
                }
            }
        }
        h
    };
    let halos: Vec<Vec<bool>> = traces.iter().map(|t| halo(t, tol)).collect();
    let cross: Vec<(i64, i64)> = p.marker.map_or(vec![], |q| {
        let (x, y) = m.px(q);
        (-10..=10).flat_map(|d| [(x.round() as i64 + d, y.round() as i64 + d), (x.round() as i64 + d, y.round() as i64 - d), (x.round() as i64 + d, y.round() as i64), (x.round() as i64, y.round() as i64 + d)]).collect()
    });
    let hcross = halo(&cross, tol);
    let mut seen = 0;
    for (i, s) in p.series.iter().enumerate() {
        // every stretch of the curve is there, unless something drawn later covers it
        let mut missing = 0;
        let mut first = None;
        for &(x, y) in &traces[i] {
            if legend.map_or(false, |l| l.has(x, y, 2)) || !inside(x, y) {
                continue;
            }
            if !area.has(x, y, 3) {
                return Err(format!("{}: leaves the plotting area at pixel {:?}", s.name, (x, y)));
            }
            if hcross[idx(x, y)] || halos[i + 1..].iter().any(|h| h[idx(x, y)]) {
                continue;
            }
            // labels may be written across the curve, and curves close to each other are blended
            let near = (-tol..=tol).any(|dy| (-tol..=tol).any(|dx| tinted(im.at(x + dx, y + dy), s.color) || dark(im.at(x + dx, y + dy)))) || halos[..i].iter().any(|h| h[idx(x, y)]) && (-tol..=tol).any(|dy| (-tol..=tol).any(|dx| !background(im.at(x + dx, y + dy))));
            seen += 1;
            if !near {
                missing += 1;
                first = first.or(Some((x, y)));
            } else {
                missing = 0;
                first = None;
            }
            if missing >= 4 {
                return Err(format!("{}: the curve is missing near pixel {:?}", s.name, first.unwrap()));
            }
        }
        // and there is nothing else in its colour
        let mut stray = vec![];
        // text looks like it
        if s.color.iter().all(|v| *v <= 8) || dist(s.color, [128; 3]) < 60 {
            continue;
        }
        for y in area.y0 + 1..area.y1 {
            for x in area.x0 + 1..=area.x1 {
                if pure(im.px[idx(x, y)], s.color) && !halos[i][idx(x, y)] && !(s.color == RED && hcross[idx(x, y)]) && !legend.map_or(false, |l| l.has(x, y, 0)) {
                    // another series may have the same colour
                    if !p.series.iter().enumerate().any(|(j, t)| j != i && (p.series.len() > 6 || dist(t.color, s.color) <= 150) && halos[j][idx(x, y)]) {
                        stray.push((x, y));
                    }
                }
            }
        }
        if stray.len() >= 3 {
            return Err(format!("{}: {} pixels of its colour where nothing was recorded, e.g. {:?}", s.name, stray.len(), stray[0]));
        }
    }
    if let Some(q) = p.marker {
        let (x, y) = m.px(q);
        let (x, y) = (x.round() as i64, y.round() as i64);
        let k = (-6..=6).flat_map(|dy| (-6..=6).map(move |dx| (dx, dy))).filter(|(dx, dy)| pure(im.at(x + dx, y + dy), RED)).count();
        let text = (-12..=12).any(|dy| (-12..=12).any(|dx| dark(im.at(x + dx, y + dy))));
        if k < 10 && !text && !legend.map_or(false, |l| l.has(x, y, 12)) {
            return Err(format!("the best value is not marked near pixel {:?}", (x, y)));
        }
    }
    Ok(seen)
}

/// All four panels of the image against the recorded points
pub fn shows(img: &Img, mode: Mode, pts: &[Point]) -> Result<u64, String> {
    let mut seen = 0;
    for (k, p) in expected(mode, pts).iter().enumerate() {
        let im = img.panel(k % 2, k / 2);
        let (area, legend) = layout(&im).map_err(|e| format!("panel {}: {}", p.name, e))?;
        if p.legend != legend.is_some() {
            return Err(format!("panel {}: legend {:?}", p.name, legend));
        }
        let vals: Vec<f64> = p.series.iter().flat_map(|s| s.pieces.iter().flatten().map(|q| q.1)).collect();
        let (lo, hi) = vals.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |a, v| (a.0.min(*v), a.1.max(*v)));
        let (e0, e1) = (pts[0].evals as f64, pts.last().unwrap().evals as f64);
        let t = |v: f64| if p.log { v.log10() } else { v };
        // the mapping is read off the image: the outermost coloured pixels are the extreme values
        let (mut l, mut r, mut top, mut bot) = (i64::MAX, i64::MIN, i64::MAX, i64::MIN);
        for y in area.y0 + 1..area.y1 {
            for x in area.x0 + 1..=area.x1 {
                let c = im.px[y as usize * im.w + x as usize];
                if p.series.iter().any(|s| pure(c, s.color)) && !legend.map_or(false, |g| g.has(x, y, 0)) {
                    l = l.min(x);
                    r = r.max(x);
                    top = top.min(y);
                    bot = bot.max(y);
                }
            }
        }
        let mut maps = vec![];
        let ratio = |a: f64, b: f64, u: f64, v: f64| if u == v { (a, 0.0) } else { ((a * v - b * u) / (v - u), (b - a) / (v - u)) };
        let margin = if p.log { 0.4 } else if hi > lo { 0.15 * (hi - lo) } else if hi != 0.0 { 0.15 * hi.abs() } else { 0.15 };
        let end = (e1 * 1.05).floor();
        let mut xs = vec![ratio(area.x0 as f64, area.x1 as f64, e0, end)];
        let mut ys = vec![ratio(area.y1 as f64, area.y0 as f64, t(lo) - margin, t(hi) + margin)];
        if l <= r && top <= bot {
            xs.push(ratio(area.x0 as f64, r as f64, e0, e1));
            xs.push(ratio(l as f64, r as f64, e0, e1));
            ys.push(ratio(bot as f64, top as f64, t(lo), t(hi)));
        }
        for &(xa, xb) in &xs {
            for &(ya, yb) in &ys {
                maps.push(Map { ax: xa, bx: xb, ay: ya, by: yb, log: p.log });
            }
        }
        let mut first = None;
        let mut ok = None;
        for m in &maps {
            match fits(&im, p, &area, legend, m) {
                Ok(k) => {
                    ok = Some(k);
                    break;
                }
                Err(e) => first = first.or(Some(e)),
            }
        }
        match ok {
            Some(k) => seen += k,
            None => return Err(format!("panel {}: {}", p.name, first.unwrap())),
        }
    }
    Ok(seen)
}

fn render(r: &Run) -> Result<Vec<u8>, String> {
    let path = scratch_dir().join("image.png");
    let _ = std::fs::remove_file(&path);
    match guarded(|| r.es.get_plot().unwrap().save_to_file(&path, false).map_err(|e| e.to_string())) {
        Err(p) => return Err(format!("saving panicked: {}", p)),
        Ok(Err(e)) => return Err(format!("saving failed: {}", e)),
        Ok(Ok(())) => (),
    }
    let b = std::fs::read(&path).map_err(|e| e.to_string());
    let _ = std::fs::remove_file(&path);
    b
}

fn verify(ctx: &mut Ctx, r: &Run, m: &PlotModel, mode: Mode, what: &str) {
    ctx.trans(1);
    let res = render(r).and_then(|b| decode(&b)).and_then(|i| if (i.w, i.h) == (1200, 1200) { shows(&i, mode, &m.pts) } else { Err(format!("size {}x{}", i.w, i.h)) });
    match res {
        Ok(k) => {
            ctx.count("curve_pixels_found", k);
            ctx.count("images_read_back", 1);
            ctx.sample(|| json!({"history": what, "points": m.pts.len(), "curve_pixels": k}));
        }
        Err(e) => ctx.viol("image", format!("{}: {}", what, e)),
    }
    let mut f = Fp::new("image");
    for p in &m.pts {
        f.u(p.evals as u64).f(p.best).f(p.median).f(p.sigma).f(p.axis).fs(&p.mean).fs(&p.eig).fs(&p.coord);
    }
    ctx.state(f.0);
}

pub fn p37(tier: Tier) -> Vec<Job> {
    let mut jobs = vec![];
    // all words over generations of given best and median values
    let alpha: &[f64] = tier.pick(&[-10.0, 0.0, 0.01, 1e6, f64::INFINITY], &[-10.0, -0.1, 0.0, 0.01, 5.0, 1e6, f64::INFINITY]);
    let depth = tier.pick(3, 4);
    for mode in [Mode::Minimize, Mode::Maximize] {
        for a in 0..alpha.len() {
            for b in 0..alpha.len() {
                jobs.push(job(format!("values/{:?}/{}/{}", mode, a, b), move |ctx| {
                    let rest = alpha.len().pow(depth - 2);
                    for code in 0..rest {
                        let mut word = vec![alpha[a], alpha[b]];
                        let mut c = code;
                        for _ in 2..depth {
                            word.push(alpha[c % alpha.len()]);
                            c /= alpha.len();
                        }
                        let s = if mode == Mode::Maximize { -1.0 } else { 1.0 };
                        // best, and a worse half
                        let gens: Vec<Vec<f64>> = word.iter().map(|v| vec![v + s * (v.abs() + 0.03), v + s * 2.0 * v.abs(), *v, v + s * (3.0 * v.abs() + 1.0)].iter().map(|x| if x.is_nan() { f64::INFINITY } else { *x }).collect()).collect();
                        let mut cfg = Cfg::quiet(1, 4).mode(mode);
                        cfg.plot = Some((0, false));
                        let mut r = Run::new(&cfg, wpol(gens));
                        let mut m = PlotModel::new(0, &r.last);
                        for _ in 0..depth {
                            let st = r.next();
                            m.step(&st);
                        }
                        verify(ctx, &r, &m, mode, &format!("best values {:?} ({:?})", word, mode));
                        ctx.trace();
                        if ctx.full() {
                            return;
                        }
                    }
                }));
            }
        }
    }
    // landscapes x dimensions x gaps x notations, each shown at several moments and across clearing
    for (ki, k) in all_kinds().into_iter().enumerate() {
        for mode in [Mode::Minimize, Mode::Maximize] {
            jobs.push(job(format!("landscapes/{}/{:?}", ki, mode), move |ctx| {
                for n in tier.pick(vec![1usize, 3], vec![1, 2, 3, 4, 5, 6]) {
                    for gap in tier.pick(vec![0usize, 25], vec![0, 1, 7, 25, 60]) {
                        let sci = (n + gap) % 2 == 0;
                        let mut cfg = Cfg::quiet(n, 6).at((0..n).map(|i| 0.5 - 0.4 * i as f64).collect(), 0.7).mode(mode);
                        cfg.plot = Some((gap, sci));
                        let mut r = Run::new(&cfg, kpol(k));
                        let mut m = PlotModel::new(gap, &r.last);
                        let what = |g: usize, c: &str| format!("{:?} ({:?}) n={} gap={} after {} generations{}", k, mode, n, gap, g, c);
                        let shots = tier.pick(vec![2usize, 9, 60], vec![1, 2, 3, 9, 30, 60, 200]);
                        for g in 1..=*shots.last().unwrap() {
                            let st = r.next();
                            m.step(&st);
                            if shots.contains(&g) {
                                verify(ctx, &r, &m, mode, &what(g, ""));
                            }
                        }
                        r.es.get_mut_plot().unwrap().clear();
                        m.clear();
                        for _ in 0..12 {
                            let st = r.next();
                            m.step(&st);
                        }
                        verify(ctx, &r, &m, mode, &what(12, " since clearing"));
                        ctx.trace();
                        if ctx.full() {
                            return;
                        }
                    }
                }
            }));
        }
    }
    // many dimensions, one of them far from the others
    for n in tier.pick(vec![7usize, 10, 12, 18, 19, 20, 21], (7..=21).collect()) {
        jobs.push(job(format!("dims/{}", n), move |ctx| {
            for far in tier.pick(vec![0, n / 2, n - 1], (0..n).collect()) {
                let mut mean: Vec<f64> = (0..n).map(|i| 0.5 * i as f64).collect();
                mean[far] = 40.0;
                let mut cfg = Cfg::quiet(n, 5).at(mean, 1.0);
                cfg.plot = Some((0, true));
                let mut r = Run::new(&cfg, kpol(Kind::Elli(4.0)));
                let mut m = PlotModel::new(0, &r.last);
                for g in 1..=tier.pick(40, 200) {
                    let st = r.next();
                    m.step(&st);
                    if g == 3 || g % 40 == 0 {
                        verify(ctx, &r, &m, Mode::Minimize, &format!("n={} coordinate {} far away, {} generations", n, far, g));
                    }
                }
                ctx.trace();
            }
        }));
    }
    jobs
}
