//! Runtime: jobs, worker processes, coverage accounting, violations, evidence.

use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::time::Instant;

pub const VERIF: &str = env!("CARGO_MANIFEST_DIR"); // /verif/mc at build time

pub fn verif_dir() -> PathBuf {
    if let Ok(d) = std::env::var("MC_VERIF") {
        return PathBuf::from(d);
    }
    PathBuf::from(VERIF).parent().unwrap().to_path_buf()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// Picks the bound for the tier
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub detail: String,
    pub job: String,
}

pub struct Ctx {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub traces: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub viols: Vec<Viol>,
    pub job: String,
    pub tier: Tier,
    job_samples: usize,
}

pub const MAX_VIOLS: usize = 12;

impl Ctx {
    pub fn new(tier: Tier) -> Self {
        Ctx {
            states: HashSet::new(),
            transitions: 0,
            traces: 0,
            counters: BTreeMap::new(),
            samples: vec![],
            viols: vec![],
            job: String::new(),
            tier,
            job_samples: 0,
        }
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn trans(&mut self, n: u64) {
        self.transitions += n;
    }
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(k) {
            *x += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 4 && self.job_samples < 1 {
            self.job_samples += 1;
            let v = f();
            self.samples.push(json!({"job": self.job, "case": v}));
        }
    }
    pub fn viol(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        let key = key.into();
        let mut d: String = detail.into();
        if d.len() > 4000 {
            let mut k = 4000;
            while !d.is_char_boundary(k) {
                k -= 1;
            }
            d.truncate(k);
        }
        if self.viols.iter().filter(|v| v.key == key).count() >= 3 {
            return;
        }
        self.viols.push(Viol {
            key,
            detail: d,
            job: self.job.clone(),
        });
    }
    pub fn full(&self) -> bool {
        self.viols.len() >= MAX_VIOLS
    }
}

pub struct Job {
    pub id: String,
    pub run: Box<dyn Fn(&mut Ctx)>,
}

pub fn job(id: impl Into<String>, run: impl Fn(&mut Ctx) + 'static) -> Job {
    Job {
        id: id.into(),
        run: Box::new(run),
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub jobs: fn(Tier) -> Vec<Job>,
}

// ---------------------------------------------------------------------------------------------
// Virtual clock

thread_local! {
    static VT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
static VNOW: AtomicI64 = AtomicI64::new(0);

/// Runs `f` under the virtual clock of this thread (starts at 1 000 000 s)
pub fn with_virtual_clock<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            VT.with(|v| v.set(false));
        }
    }
    VNOW.store(1_000_000_000_000_000, Ordering::SeqCst);
    VT.with(|v| v.set(true));
    let _g = G;
    f()
}

pub fn advance_ns(ns: i64) {
    VNOW.fetch_add(ns, Ordering::SeqCst);
}

#[no_mangle]
pub extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let virt = VT.try_with(|v| v.get()).unwrap_or(false);
    if virt && (id == libc::CLOCK_MONOTONIC || id == libc::CLOCK_REALTIME || id == libc::CLOCK_BOOTTIME) {
        let t = VNOW.load(Ordering::SeqCst);
        unsafe {
            (*ts).tv_sec = t / 1_000_000_000;
            (*ts).tv_nsec = t % 1_000_000_000;
        }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int }
}

// ---------------------------------------------------------------------------------------------
// Allocation accounting: bytes allocated minus bytes freed by the current thread

thread_local! {
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

struct Counting;

fn account(d: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + d));
}

unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        account(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        account(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        account(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

pub fn live_bytes() -> i64 {
    LIVE.with(|l| l.get())
}

// ---------------------------------------------------------------------------------------------
// stdout capture (worker processes only: fd 1 is a private file opened with O_APPEND)

static CAP: std::sync::Mutex<Option<PathBuf>> = std::sync::Mutex::new(None);

fn capture_init(path: &Path) {
    let f = fs::OpenOptions::new()
        .create(true)
        .truncate(true)
        .write(true)
        .open(path)
        .expect("capture file");
    drop(f);
    let f = fs::OpenOptions::new().append(true).open(path).expect("capture file");
    use std::os::fd::AsRawFd;
    unsafe {
        libc::dup2(f.as_raw_fd(), 1);
    }
    *CAP.lock().unwrap() = Some(path.to_path_buf());
}

/// Runs `f` and returns what it printed to stdout
pub fn capture<T>(f: impl FnOnce() -> T) -> (T, String) {
    let _ = std::io::stdout().flush();
    unsafe {
        libc::ftruncate(1, 0);
    }
    let r = f();
    let _ = std::io::stdout().flush();
    let path = CAP.lock().unwrap().clone().expect("capture not initialised");
    let mut s = Vec::new();
    fs::File::open(&path).unwrap().read_to_end(&mut s).unwrap();
    unsafe {
        libc::ftruncate(1, 0);
    }
    (r, String::from_utf8_lossy(&s).into_owned())
}

static SCRATCH: std::sync::Mutex<Option<PathBuf>> = std::sync::Mutex::new(None);

/// Scratch directory of this worker process (removed by the parent)
pub fn scratch_dir() -> PathBuf {
    SCRATCH.lock().unwrap().clone().expect("no scratch dir")
}

// ---------------------------------------------------------------------------------------------
// Panics

static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{} at {}", msg, loc);
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
}

/// Runs `f`, returning the panic message if it panicked
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn run_job(ctx: &mut Ctx, j: &Job) {
    ctx.job = j.id.clone();
    ctx.job_samples = 0;
    let r = catch_unwind(AssertUnwindSafe(|| (j.run)(ctx)));
    VT.with(|v| v.set(false));
    if r.is_err() {
        let m = last_panic();
        ctx.viol("panic", format!("panic during the exploration: {}", m));
    }
}

// ---------------------------------------------------------------------------------------------
// Worker

struct Shm {
    p: *mut u8,
}

impl Shm {
    fn open(path: &Path) -> Shm {
        use std::os::fd::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).open(path).expect("shm");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Shm { p: p as *mut u8 }
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.p.add(i * 8) as *const AtomicU64) }
    }
}

const SH_NEXT: usize = 0;
const SH_STOP: usize = 1;
const SH_SLOT: usize = 8; // per worker: [job+1, start_ms]

fn now_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts);
    }
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

pub fn worker(check: &Check, tier: Tier, k: usize, dir: &Path) {
    install_panic_hook();
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let scratch = dir.join(format!("w{}", k));
    fs::create_dir_all(&scratch).unwrap();
    *SCRATCH.lock().unwrap() = Some(scratch.clone());
    capture_init(&scratch.join("stdout"));
    let shm = Shm::open(&dir.join("shm"));
    let jobs = (check.jobs)(tier);
    let mut ctx = Ctx::new(tier);
    let mut done = 0u64;
    let mut reported = 0;
    let mut vf = fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(dir.join(format!("viol{}", k)))
        .unwrap();
    loop {
        if shm.at(SH_STOP).load(Ordering::SeqCst) != 0 {
            break;
        }
        let i = shm.at(SH_NEXT).fetch_add(1, Ordering::SeqCst) as usize;
        if i >= jobs.len() {
            break;
        }
        shm.at(SH_SLOT + 2 * k + 1).store(now_ms(), Ordering::SeqCst);
        shm.at(SH_SLOT + 2 * k).store(i as u64 + 1, Ordering::SeqCst);
        run_job(&mut ctx, &jobs[i]);
        shm.at(SH_SLOT + 2 * k).store(0, Ordering::SeqCst);
        done += 1;
        while reported < ctx.viols.len() {
            let v = &ctx.viols[reported];
            let _ = writeln!(vf, "{}", json!({"key": v.key, "detail": v.detail, "job": v.job}));
            reported += 1;
        }
        if ctx.full() {
            shm.at(SH_STOP).store(1, Ordering::SeqCst);
        }
    }
    let mut b = Vec::with_capacity(ctx.states.len() * 8);
    for s in &ctx.states {
        b.extend_from_slice(&s.to_le_bytes());
    }
    fs::write(dir.join(format!("states{}", k)), b).unwrap();
    let out = json!({"transitions": ctx.transitions, "traces": ctx.traces, "counters": ctx.counters,
        "samples": ctx.samples, "done": done});
    fs::write(dir.join(format!("out{}", k)), out.to_string()).unwrap();
}

// ---------------------------------------------------------------------------------------------
// Parent

fn n_workers() -> usize {
    std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16)
    })
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    let p = verif_dir().join("known_findings.json");
    let Ok(s) = fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).unwrap_or(json!({}));
    let mut r = vec![];
    if let Some(a) = v["findings"].as_array() {
        for f in a {
            if f["property"] == id && f["status"] == "known" {
                r.push((
                    f["key"].as_str().unwrap_or("").to_string(),
                    f["what"].as_str().unwrap_or("").to_string(),
                ));
            }
        }
    }
    r
}

pub fn check(check: &Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let base = verif_dir().join("scratch");
    fs::create_dir_all(&base).unwrap();
    let dir = base.join(format!("{}-{}", check.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    fs::write(dir.join("shm"), vec![0u8; 4096]).unwrap();
    let shm = Shm::open(&dir.join("shm"));
    let jobs = (check.jobs)(tier);
    let njobs = jobs.len();
    {
        let mut seen = HashSet::new();
        for j in &jobs {
            assert!(seen.insert(j.id.clone()), "duplicate job id {}", j.id);
        }
    }
    let nw = n_workers().min(njobs.max(1));
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<Option<std::process::Child>> = (0..nw)
        .map(|k| {
            Some(
                std::process::Command::new(&exe)
                    .args(["worker", check.id, tier.name(), &k.to_string()])
                    .arg(&dir)
                    .stdin(std::process::Stdio::null())
                    .stdout(std::process::Stdio::null())
                    .spawn()
                    .expect("spawn worker"),
            )
        })
        .collect();
    let job_limit_ms: u64 = tier.pick(240_000, 1_500_000);
    let total_limit_ms: u64 = tier.pick(780_000, 6 * 3600_000);
    let start = now_ms();
    let mut viols: Vec<Viol> = vec![];
    let mut truncated = false;
    loop {
        let mut alive = false;
        for k in 0..nw {
            let Some(c) = kids[k].as_mut() else { continue };
            match c.try_wait().unwrap() {
                Some(st) => {
                    kids[k] = None;
                    if !st.success() {
                        let cur = shm.at(SH_SLOT + 2 * k).load(Ordering::SeqCst);
                        let jid = if cur > 0 { jobs[cur as usize - 1].id.clone() } else { "?".into() };
                        let killed = fs::read_to_string(dir.join(format!("killed{}", k))).unwrap_or_default();
                        if killed == "limit" {
                            // total time limit, not a verdict
                        } else if killed == "hang" {
                            viols.push(Viol {
                                key: "hang".into(),
                                detail: format!("no progress within {} s", job_limit_ms / 1000),
                                job: jid,
                            });
                        } else {
                            viols.push(Viol {
                                key: "crash".into(),
                                detail: format!("process died: {:?}", st),
                                job: jid,
                            });
                        }
                        shm.at(SH_STOP).store(1, Ordering::SeqCst);
                    }
                }
                None => {
                    alive = true;
                    let cur = shm.at(SH_SLOT + 2 * k).load(Ordering::SeqCst);
                    let st = shm.at(SH_SLOT + 2 * k + 1).load(Ordering::SeqCst);
                    let now = now_ms();
                    if cur > 0 && now > st + job_limit_ms {
                        fs::write(dir.join(format!("killed{}", k)), "hang").unwrap();
                        let _ = c.kill();
                    } else if now > start + total_limit_ms {
                        truncated = true;
                        fs::write(dir.join(format!("killed{}", k)), "limit").unwrap();
                        let _ = c.kill();
                    }
                }
            }
        }
        if !alive {
            break;
        }
        if !viols.is_empty() && viols.iter().any(|v| v.key == "hang") {
            for c in kids.iter_mut().flatten() {
                let _ = c.kill();
            }
            for c in kids.iter_mut() {
                if let Some(c) = c {
                    let _ = c.wait();
                }
                *c = None;
            }
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    // Merge
    let mut states: HashSet<u64> = HashSet::new();
    let (mut transitions, mut traces, mut done) = (0u64, 0u64, 0u64);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    for k in 0..nw {
        if let Ok(b) = fs::read(dir.join(format!("states{}", k))) {
            for c in b.chunks_exact(8) {
                states.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        if let Ok(s) = fs::read_to_string(dir.join(format!("out{}", k))) {
            let v: Value = serde_json::from_str(&s).unwrap();
            transitions += v["transitions"].as_u64().unwrap();
            traces += v["traces"].as_u64().unwrap();
            done += v["done"].as_u64().unwrap();
            for (n, c) in v["counters"].as_object().unwrap() {
                *counters.entry(n.clone()).or_default() += c.as_u64().unwrap();
            }
            for s in v["samples"].as_array().unwrap() {
                if samples.len() < 6 {
                    samples.push(s.clone());
                }
            }
        }
        if let Ok(s) = fs::read_to_string(dir.join(format!("viol{}", k))) {
            for l in s.lines() {
                if let Ok(v) = serde_json::from_str::<Value>(l) {
                    viols.push(Viol {
                        key: v["key"].as_str().unwrap_or("").into(),
                        detail: v["detail"].as_str().unwrap_or("").into(),
                        job: v["job"].as_str().unwrap_or("").into(),
                    });
                }
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let known = known_findings(check.id);
    let mut hit: Vec<usize> = vec![];
    let mut real: Vec<Viol> = vec![];
    for v in viols {
        if let Some(i) = known.iter().position(|(k, _)| *k == v.key) {
            if !hit.contains(&i) {
                hit.push(i);
            }
        } else {
            real.push(v);
        }
    }
    // A listed finding is printed on every run
    for (_, what) in &known {
        println!("KNOWN-FINDING: property={} {}", check.id, what);
    }
    if samples.is_empty() && !jobs.is_empty() {
        samples.push(json!({"job": jobs[0].id}));
    }
    let exhaustive = !truncated && real.is_empty() && done as usize == njobs;
    let mut cov = json!({
        "states": states.len(), "transitions": transitions, "traces_validated_against_impl": traces,
        "samples": samples, "exhaustive": exhaustive, "jobs": njobs, "jobs_completed": done, "rule": check.rule,
    });
    for (k, v) in &counters {
        cov[k.as_str()] = json!(v);
    }
    if !known.is_empty() {
        cov["known_findings_observed"] = json!(hit.len());
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({"property": check.id, "tier": tier.name(), "seed": seed, "level": "model_checking",
        "coverage": cov, "assumptions": check.assumptions, "wall_s": (wall*1000.0).round()/1000.0, "violations": real.len()});
    let evd = verif_dir().join("evidence");
    fs::create_dir_all(&evd).unwrap();
    fs::write(evd.join(format!("{}.json", check.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!(
        "{} {}: {}/{} jobs, {} states, {} transitions, {} traces validated, {:.1} s{}",
        check.id, tier.name(), done, njobs, states.len(), transitions, traces, wall,
        if truncated { " (time limit reached)" } else { "" }
    );
    if real.is_empty() {
        return 0;
    }
    let rd = verif_dir().join("replays");
    fs::create_dir_all(&rd).unwrap();
    let mut seen: HashSet<String> = HashSet::new();
    let mut n = 0;
    for v in &real {
        if n >= 6 || !seen.insert(v.key.clone()) {
            continue;
        }
        let p = rd.join(format!("{}-{}.json", check.id, n));
        let _ = fs::write(
            &p,
            serde_json::to_string_pretty(&json!({"property": check.id, "tier": tier.name(), "job": v.job, "key": v.key, "detail": v.detail}))
                .unwrap(),
        );
        println!("  [{}] {} :: {}", v.key, v.job, v.detail);
        println!("VIOLATION property={} replay={}", check.id, p.display());
        n += 1;
    }
    1
}

pub fn replay(check: &Check, tier: Tier, job_id: &str) -> i32 {
    install_panic_hook();
    let base = verif_dir().join("scratch").join(format!("replay-{}", std::process::id()));
    fs::create_dir_all(&base).unwrap();
    *SCRATCH.lock().unwrap() = Some(base.clone());
    let saved = unsafe { libc::dup(1) };
    capture_init(&base.join("stdout"));
    let jobs = (check.jobs)(tier);
    let mut ctx = Ctx::new(tier);
    let mut found = false;
    for j in &jobs {
        if j.id == job_id {
            found = true;
            run_job(&mut ctx, j);
        }
    }
    unsafe {
        libc::dup2(saved, 1);
    }
    let _ = fs::remove_dir_all(&base);
    if !found {
        println!("no such job: {}", job_id);
        return 2;
    }
    println!("job {}: {} transitions, {} violations", job_id, ctx.transitions, ctx.viols.len());
    for v in &ctx.viols {
        println!("[{}] {}", v.key, v.detail);
    }
    if ctx.viols.is_empty() {
        0
    } else {
        1
    }
}

// ---------------------------------------------------------------------------------------------
// Fingerprints

#[derive(Clone, Copy)]
pub struct Fp(pub u64);

impl Fp {
    pub fn new(tag: &str) -> Fp {
        let mut f = Fp(0xcbf29ce484222325);
        f.s(tag);
        f
    }
    pub fn u(&mut self, x: u64) -> &mut Self {
        let mut z = self.0 ^ x.wrapping_mul(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        self.0 = z ^ (z >> 31);
        self
    }
    pub fn f(&mut self, x: f64) -> &mut Self {
        self.u(x.to_bits())
    }
    pub fn fs(&mut self, x: &[f64]) -> &mut Self {
        self.u(x.len() as u64);
        for v in x {
            self.f(*v);
        }
        self
    }
    pub fn s(&mut self, x: &str) -> &mut Self {
        for b in x.bytes() {
            self.u(b as u64 + 1);
        }
        self
    }
}

/// Deterministic hash to [0,1)
pub fn hash01(a: u64, b: u64) -> f64 {
    let mut f = Fp(0x1234567);
    f.u(a).u(b);
    (f.0 >> 11) as f64 / (1u64 << 53) as f64
}
