//! Running cases under observation: counting what was observed, catching panics, breadcrumbs and a
//! watchdog for hangs.

use std::any::Any;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::model::{Ty, TyFn, ZooDyn, M};
use crate::rng::Rng;

pub type Res = Result<(), String>;
pub type Registry = Vec<(&'static str, TyFn)>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

#[derive(Clone)]
pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub start: Instant,
    pub cap: Duration,
    pub threads: usize,
}

impl Cfg {
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        // C14 starts processes, C15 goes deep: their cases are large
        let (a, b) = match &*self.prop {
            "C14" | "C15" => (1, 4),
            "C22" => (2, 4),
            "C24" => (1, 3),
            _ => (6, 12),
        };
        if self.thorough {
            thorough * b
        } else {
            quick * a
        }
    }
    pub fn expired(&self) -> bool {
        self.start.elapsed() > self.cap
    }
    pub fn wants(&self, label: &str) -> bool {
        self.only.as_ref().map_or(true, |o| o.0 == label)
    }
}

#[derive(Clone, serde::Serialize)]
pub struct Violation {
    pub label: String,
    pub case: u64,
    pub message: String,
}

/// What was observed.
#[derive(Default)]
pub struct Obs {
    pub events: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub harness_errors: Vec<String>,
    pub cases: u64,
    pub cut_short: bool,
    note: String,
}

impl Obs {
    pub fn ev(&mut self, name: &'static str) {
        *self.events.entry(name).or_default() += 1;
    }
    pub fn evn(&mut self, name: &'static str, n: u64) {
        *self.events.entry(name).or_default() += n;
    }
    pub fn seen<T: Hash>(&mut self, x: &T) {
        if self.distinct.len() < 2_000_000 {
            let mut h = DefaultHasher::new();
            x.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    pub fn note(&mut self, s: impl FnOnce() -> String) {
        self.note = s();
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let mut s = s();
            if s.len() > 400 {
                let mut c = 400;
                while !s.is_char_boundary(c) {
                    c -= 1;
                }
                s.truncate(c);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
    pub fn merge(&mut self, o: Obs) {
        for (k, v) in o.events {
            *self.events.entry(k).or_default() += v;
        }
        if self.distinct.len() < 4_000_000 {
            self.distinct.extend(o.distinct);
        }
        for (i, s) in o.samples.into_iter().enumerate() {
            if self.samples.len() < 24 && i < 2 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
        self.harness_errors.extend(o.harness_errors);
        self.cases += o.cases;
        self.cut_short |= o.cut_short;
    }
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static SLOT: RefCell<Option<usize>> = const { RefCell::new(None) };
}

const SLOTS: usize = 512;
const SLOT_BYTES: usize = 256;
struct Slot {
    busy: AtomicBool,
    clock: AtomicI64,
    start_cpu: AtomicU64,
    start_wall: AtomicU64,
    case: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot {
    busy: AtomicBool::new(false),
    clock: AtomicI64::new(-1),
    start_cpu: AtomicU64::new(0),
    start_wall: AtomicU64::new(0),
    case: AtomicU64::new(0),
};
static TABLE: [Slot; SLOTS] = [EMPTY; SLOTS];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static CRUMBS: AtomicUsize = AtomicUsize::new(0);

fn millis(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return 0;
        }
    }
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

/// Sets up the panic hook, the breadcrumb file, memory limit and the watchdog.
pub fn install(crumb: Option<&str>, cpu_limit_s: u64, stall_limit_s: u64) {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload(info.payload());
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
    unsafe {
        let lim = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    if let Some(path) = crumb {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("breadcrumb file");
        f.set_len((SLOTS * SLOT_BYTES) as u64).expect("breadcrumb file");
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOTS * SLOT_BYTES, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        if p != libc::MAP_FAILED {
            CRUMBS.store(p as usize, Ordering::SeqCst);
        }
    }
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        for (i, s) in TABLE.iter().enumerate() {
            if !s.busy.load(Ordering::SeqCst) {
                continue;
            }
            let case = s.case.load(Ordering::SeqCst);
            let clock = s.clock.load(Ordering::SeqCst) as libc::clockid_t;
            let cpu = millis(clock).saturating_sub(s.start_cpu.load(Ordering::SeqCst));
            let wall = millis(libc::CLOCK_MONOTONIC).saturating_sub(s.start_wall.load(Ordering::SeqCst));
            if s.case.load(Ordering::SeqCst) != case || !s.busy.load(Ordering::SeqCst) {
                continue;
            }
            if cpu > cpu_limit_s * 1000 {
                eprintln!("watchdog: slot {i} has used {cpu} ms of cpu in one case");
                unsafe { libc::_exit(77) };
            }
            if wall > stall_limit_s * 1000 && cpu * 50 < wall {
                eprintln!("watchdog: slot {i} has made no progress for {wall} ms");
                unsafe { libc::_exit(78) };
            }
        }
    });
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(no message)".into()
    }
}

fn slot() -> Option<&'static Slot> {
    SLOT.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let i = NEXT_SLOT.fetch_add(1, Ordering::SeqCst);
            if i >= SLOTS {
                return None;
            }
            let mut c: libc::clockid_t = 0;
            unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
            TABLE[i].clock.store(c as i64, Ordering::SeqCst);
            *s = Some(i);
        }
        s.map(|i| &TABLE[i])
    })
}

static PREFIX: Mutex<&'static str> = Mutex::new("");

/// What the breadcrumbs' labels start with.
pub fn set_crumb_prefix(p: &'static str) {
    *PREFIX.lock().unwrap_or_else(|e| e.into_inner()) = p;
}

fn begin(label: &str, i: u64) {
    if let Some(s) = slot() {
        let idx = SLOT.with(|s| s.borrow().unwrap_or(0));
        s.case.fetch_add(1, Ordering::SeqCst);
        s.start_cpu.store(millis(s.clock.load(Ordering::SeqCst) as libc::clockid_t), Ordering::SeqCst);
        s.start_wall.store(millis(libc::CLOCK_MONOTONIC), Ordering::SeqCst);
        let base = CRUMBS.load(Ordering::SeqCst);
        if base != 0 {
            let text = format!("{}{label}\t{i}\n", PREFIX.lock().map_or("", |p| *p));
            let b = text.as_bytes();
            let n = b.len().min(SLOT_BYTES - 1);
            unsafe {
                let dst = (base as *mut u8).add(idx * SLOT_BYTES);
                std::ptr::copy_nonoverlapping(b.as_ptr(), dst, n);
                *dst.add(n) = 0;
            }
        }
        s.busy.store(true, Ordering::SeqCst);
    }
}

fn end() {
    if let Some(s) = slot() {
        s.busy.store(false, Ordering::SeqCst);
        let idx = SLOT.with(|s| s.borrow().unwrap_or(0));
        let base = CRUMBS.load(Ordering::SeqCst);
        if base != 0 {
            unsafe { *(base as *mut u8).add(idx * SLOT_BYTES) = 0 };
        }
    }
}

/// Runs `f`; a panic raised outside the harness is `Err(Ok(message))`, one of the harness itself
/// `Err(Err(message))`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Result<String, String>> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let text = format!("panicked at {loc}: {msg}");
            // the harness's own source files are compiled with relative paths, or below its folder
            if loc.starts_with("src/") || loc.starts_with(concat!(env!("CARGO_MANIFEST_DIR"), "/src/")) {
                Err(Err(text))
            } else {
                Err(Ok(text))
            }
        }
    }
}

/// One reproducible case.
pub fn case(cfg: &Cfg, o: &mut Obs, label: &str, i: u64, f: impl FnOnce(&mut Obs, &mut Rng) -> Res) {
    if let Some((l, n)) = &cfg.only {
        if l != label || *n != i {
            return;
        }
    }
    if o.violations.len() >= 3 {
        return;
    }
    if cfg.expired() {
        o.cut_short = true;
        return;
    }
    let mut r = Rng::derive(cfg.seed, label, i);
    o.cases += 1;
    o.note.clear();
    begin(label, i);
    let res = guarded(|| f(o, &mut r));
    end();
    let note = o.note.clone();
    match res {
        Ok(Ok(())) => {}
        Ok(Err(m)) => o.violations.push(Violation { label: label.into(), case: i, message: format!("{m}\n  {note}") }),
        Err(Ok(m)) => o.violations.push(Violation { label: label.into(), case: i, message: format!("{m}\n  {note}") }),
        Err(Err(m)) => o.harness_errors.push(format!("{label}#{i}: {m}\n  {note}")),
    }
}

/// Runs `f` over all jobs on several threads with large stacks.
pub fn parallel<J: Send + 'static>(
    cfg: &Cfg,
    jobs: Vec<J>,
    f: impl Fn(&Cfg, &mut Obs, &J) + Send + Sync + 'static,
) -> Obs {
    let n = jobs.len();
    let jobs = Arc::new(Mutex::new(jobs.into_iter().enumerate().collect::<Vec<_>>()));
    jobs.lock().unwrap().reverse();
    let out: Arc<Mutex<Vec<Option<Obs>>>> = Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    let f = Arc::new(f);
    let mut hs = vec![];
    for _ in 0..cfg.threads.max(1) {
        let (jobs, out, f, cfg) = (jobs.clone(), out.clone(), f.clone(), cfg.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || loop {
                    let job = jobs.lock().unwrap().pop();
                    let Some((i, j)) = job else { break };
                    let mut o = Obs::default();
                    f(&cfg, &mut o, &j);
                    out.lock().unwrap()[i] = Some(o);
                })
                .expect("thread"),
        );
    }
    let mut all = Obs::default();
    for h in hs {
        if h.join().is_err() {
            all.harness_errors.push("worker thread panicked".into());
        }
    }
    for o in std::mem::take(&mut *out.lock().unwrap()).into_iter().flatten() {
        all.merge(o);
    }
    all
}

/// `n` cases for every registered type.
pub fn each_type(
    cfg: &Cfg,
    reg: &Registry,
    n: u64,
    f: impl Fn(&mut Obs, &mut Rng, &'static Ty) -> Res + Send + Sync + 'static,
) -> Obs {
    let jobs: Vec<_> = reg.iter().filter(|x| cfg.wants(x.0)).cloned().collect();
    parallel(cfg, jobs, move |cfg, o, (name, ty)| {
        let ty = match guarded(|| ty()) {
            Ok(t) => t,
            Err(Ok(m)) | Err(Err(m)) => {
                o.harness_errors.push(format!("{name}: {m}"));
                return;
            }
        };
        for i in 0..n {
            case(cfg, o, name, i, |o, r| f(o, r, ty));
        }
    })
}

/// `n` cases of something that is not about one type.
pub fn each_case(
    cfg: &Cfg,
    label: &'static str,
    n: u64,
    f: impl Fn(&mut Obs, &mut Rng) -> Res + Send + Sync + 'static,
) -> Obs {
    if !cfg.wants(label) {
        return Obs::default();
    }
    let chunk = (n / 64).max(1);
    let mut jobs = vec![];
    let mut a = 0;
    while a < n {
        jobs.push((a, (a + chunk).min(n)));
        a += chunk;
    }
    parallel(cfg, jobs, move |cfg, o, (a, b)| {
        for i in *a..*b {
            case(cfg, o, label, i, |o, r| f(o, r));
        }
    })
}

/// A value of the type, of moderate size.
pub fn gen_value(r: &mut Rng, ty: &'static Ty) -> (Box<dyn ZooDyn>, M) {
    // something else in place of values that cannot exist
    let ty = if (ty.ops.possible)() { ty } else { crate::zoo::ty_of::<()>() };
    for k in 0..6 {
        let d = (1 + r.below(4) as u32).saturating_sub(k);
        let v = (ty.ops.gen)(r, d);
        let m = v.model();
        if m.size() <= 1500 || k == 5 {
            return (v, m);
        }
    }
    unreachable!()
}

/// Structural difference for messages.
pub fn diff(want: &M, got: &M) -> String {
    use crate::model::short;
    format!("expected {}\n  observed {}", short(want), short(got))
}
