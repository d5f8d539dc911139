#![allow(deprecated, non_local_definitions)]
//! C14: requesting type descriptions from many threads. The cache lives as long as the process, so
//! first requests can be raced only once per process: the parent starts many short processes.

use std::alloc::{GlobalAlloc, Layout, System};
use std::any::TypeId;
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

use mirror_mirror::type_info::{GetMeta, PrettyPrintRoot, Type};
use mirror_mirror::{DescribeType, Reflect, TypeDescriptor};

use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use crate::mon_type::check_descriptor;
use crate::rng::Rng;

/// Counts what the current thread holds.
pub struct Counting;
thread_local! {
    static HELD: Cell<i64> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = HELD.try_with(|h| h.set(h.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = HELD.try_with(|h| h.set(h.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = HELD.try_with(|h| h.set(h.get() + n as i64 - l.size() as i64));
        System.realloc(p, l, n)
    }
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
fn step() {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
}

// -- types whose metadata runs code -------------------------------------------------------------

const N: usize = 8;
const Z: AtomicUsize = AtomicUsize::new(0);
const F: AtomicBool = AtomicBool::new(false);
const P: AtomicU32 = AtomicU32::new(0);
static ROOM: [AtomicUsize; N] = [Z; N];
static MET: [AtomicBool; N] = [F; N];
static WAIT: AtomicBool = AtomicBool::new(false);
static RUNS: [AtomicUsize; N] = [Z; N];
static PANICS: [AtomicU32; N] = [P; N];

/// Stays inside until another thread is computing the same description, for a while.
fn rendezvous(n: usize) -> u32 {
    RUNS[n].fetch_add(1, Ordering::SeqCst);
    ROOM[n].fetch_add(1, Ordering::SeqCst);
    if WAIT.load(Ordering::SeqCst) {
        let t = Instant::now();
        while t.elapsed() < Duration::from_millis(25) {
            if ROOM[n].load(Ordering::SeqCst) >= 2 {
                MET[n].store(true, Ordering::SeqCst);
                break;
            }
            std::thread::yield_now();
        }
    }
    ROOM[n].fetch_sub(1, Ordering::SeqCst);
    n as u32 + 100
}

#[derive(Reflect, Clone, Debug)]
#[reflect(crate_name(mirror_mirror), meta(x = rendezvous(I)))]
struct Slow<const I: usize> {
    a: u8,
    b: Vec<Inner<I>>,
    c: BTreeMap<u8, Inner<I>>,
}
#[derive(Reflect, Clone, Debug)]
#[reflect(crate_name(mirror_mirror), meta(y = I as u8, s = "text"))]
enum Inner<const I: usize> {
    A(u8),
    B { x: [u16; I] },
}

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}
/// Requests the description of `T` while another one is being computed.
fn request<T: DescribeType>() -> u8 {
    let d = DEPTH.with(|d| d.get());
    if d < 3 {
        DEPTH.with(|x| x.set(d + 1));
        let t = <T as DescribeType>::type_descriptor();
        assert!(!t.type_name().is_empty());
        DEPTH.with(|x| x.set(d));
    }
    step();
    7
}
/// The same on a thread of its own.
fn request_elsewhere<T: DescribeType>() -> u8 {
    let h = std::thread::spawn(|| <T as DescribeType>::type_descriptor().type_name().len());
    assert!(h.join().unwrap() > 0);
    step();
    8
}

#[derive(Reflect, Clone, Debug)]
#[reflect(crate_name(mirror_mirror), meta(x = request::<ReB<I>>()))]
struct ReA<const I: usize> {
    #[reflect(meta(y = request::<Vec<ReC<I>>>()))]
    b: Option<Box<ReB<I>>>,
    n: [u8; I],
}
#[derive(Reflect, Clone, Debug)]
#[reflect(crate_name(mirror_mirror), meta(x = request::<ReA<I>>()))]
enum ReB<const I: usize> {
    #[reflect(meta(y = request::<ReC<I>>()))]
    One(ReC<I>),
    Two {
        #[reflect(meta(y = request::<BTreeMap<String, ReA<I>>>()))]
        x: Vec<ReB<I>>,
    },
}
#[derive(Reflect, Clone, Debug)]
#[reflect(crate_name(mirror_mirror), meta(x = request::<(ReB<I>, ReA<I>)>(), own = request::<ReC<I>>()))]
struct ReC<const I: usize>(u8, [i8; I]);

#[derive(Reflect, Clone, Debug)]
#[reflect(crate_name(mirror_mirror), meta(x = request_elsewhere::<ElsewhereOther<I>>()))]
struct Elsewhere<const I: usize> {
    a: [u8; I],
}
#[derive(Reflect, Clone, Debug)]
#[reflect(crate_name(mirror_mirror), meta(x = request_elsewhere::<Vec<Inner<I>>>()))]
struct ElsewhereOther<const I: usize>([u8; I]);

/// Panics the first times.
fn moody(n: usize) -> u8 {
    step();
    if PANICS[n].fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| x.checked_sub(1)).is_ok() {
        panic!("moody metadata");
    }
    9
}
#[derive(Reflect, Clone, Debug)]
#[reflect(crate_name(mirror_mirror))]
struct Moody<const I: usize> {
    before: Vec<Inner<I>>,
    #[reflect(meta(x = moody(I)))]
    a: Outer<I>,
    after: [u8; I],
}
#[derive(Reflect, Clone, Debug)]
#[reflect(crate_name(mirror_mirror))]
struct Outer<const I: usize> {
    n: [u32; I],
    again: Vec<Outer<I>>,
}
#[derive(Reflect, Clone, Debug)]
#[reflect(crate_name(mirror_mirror))]
struct Holder<const I: usize>(Moody<I>);

// -- types of one name --------------------------------------------------------------------------

pub trait Named {
    type T: Reflect + DescribeType;
}
pub struct First;
pub struct Second;
pub struct Third;
#[allow(dead_code)]
fn same_names() {
    {
        #[derive(Reflect, Clone, Debug)]
        #[reflect(crate_name(mirror_mirror))]
        pub struct Same {
            a: u8,
            b: Vec<u8>,
        }
        impl Named for First {
            type T = Same;
        }
    }
    {
        #[derive(Reflect, Clone, Debug)]
        #[reflect(crate_name(mirror_mirror))]
        pub enum Same {
            X(String),
            Y,
        }
        impl Named for Second {
            type T = Same;
        }
    }
    {
        #[derive(Reflect, Clone, Debug)]
        #[reflect(crate_name(mirror_mirror), meta(third = true))]
        pub struct Same {
            a: u16,
            b: Vec<u8>,
        }
        impl Named for Third {
            type T = Same;
        }
    }
}
#[derive(Reflect, Clone, Debug)]
#[reflect(crate_name(mirror_mirror), opt_out(Clone, Debug))]
struct Pair<A, B>
where
    A: Reflect + mirror_mirror::FromReflect + DescribeType,
    B: Reflect + mirror_mirror::FromReflect + DescribeType,
{
    a: A,
    b: B,
}
type Alias<T> = <T as Named>::T;

fn check_same_names() -> Res {
    let (a, b, c) = (
        <Alias<First> as DescribeType>::type_descriptor(),
        <Alias<Second> as DescribeType>::type_descriptor(),
        <Alias<Third> as DescribeType>::type_descriptor(),
    );
    ensure!(std::any::type_name::<Alias<First>>() == std::any::type_name::<Alias<Second>>(), "harness: the names differ");
    fn first(t: Type<'_>) -> bool {
        t.as_struct().map_or(false, |s| s.field_type("a").map_or(false, |f| f.get_type().type_name() == "u8"))
    }
    fn second(t: Type<'_>) -> bool {
        t.as_enum().map_or(false, |s| s.variant("X").is_some() && s.variants().count() == 2)
    }
    fn third(t: Type<'_>) -> bool {
        t.as_struct().map_or(false, |s| s.field_type("a").map_or(false, |f| f.get_type().type_name() == "u16"))
            && t.get_meta::<bool>("third") == Some(true)
    }
    ensure!(first(a.get_type()), "the first of three types of one name is described as another");
    ensure!(second(b.get_type()), "the second of three types of one name is described as another");
    ensure!(third(c.get_type()), "the third of three types of one name is described as another");
    ensure!(a != b && b != c && a != c, "descriptions of different types are equal");
    let p = <(Alias<Third>, Vec<(Alias<First>, Option<Alias<Second>>)>) as DescribeType>::type_descriptor();
    let ok = (|| {
        let t = p.as_tuple()?;
        let l = t.field_type_at(1)?.get_type().as_list()?;
        let u = l.element_type().as_tuple()?;
        let o = u.field_type_at(1)?.get_type().as_enum()?;
        let some = o.variant("Some")?;
        let inner = match some {
            mirror_mirror::type_info::Variant::Tuple(v) => v.field_type_at(0)?.get_type(),
            _ => return None,
        };
        Some(third(t.field_type_at(0)?.get_type()) && first(u.field_type_at(0)?.get_type()) && second(inner))
    })();
    ensure!(ok == Some(true), "types of one name are mixed up inside a tuple: {ok:?}");
    step();
    Ok(())
}

// -- one process --------------------------------------------------------------------------------

type Desc = Cow<'static, TypeDescriptor>;
#[derive(Default)]
struct Shared {
    /// what was given out for each type: address and first description
    given: Mutex<HashMap<(TypeId, u32), (&'static str, Desc)>>,
    order: Mutex<Vec<u32>>,
    fails: Mutex<Vec<String>>,
    requests: AtomicU64,
    first: AtomicU64,
    overlapping: AtomicU64,
    inside: AtomicUsize,
    caught: AtomicU64,
    orders: Mutex<Vec<u64>>,
}

impl Shared {
    fn fail(&self, m: String) {
        let mut f = self.fails.lock().unwrap();
        if f.len() < 5 {
            f.push(m);
        }
    }
    fn record(&self, id: TypeId, name: &'static str, d: Desc, nth: u32) {
        self.requests.fetch_add(1, Ordering::Relaxed);
        step();
        if matches!(d, Cow::Owned(_)) {
            self.fail(format!("{name}: the description is not shared"));
        }
        let mut g = self.given.lock().unwrap();
        match g.get(&(id, nth)) {
            None => {
                g.insert((id, nth), (name, d));
                drop(g);
                self.first.fetch_add(1, Ordering::Relaxed);
                self.order.lock().unwrap().push(crate::rng::hash_str(name) as u32);
            }
            Some((_, old)) => {
                let same = std::ptr::eq(&**old as *const _, &*d as *const _);
                let equal = same || old == &d;
                drop(g);
                if !equal {
                    self.fail(format!("{name}: two requests give different descriptions"));
                } else if !same {
                    self.fail(format!("{name}: two requests give two copies of the description"));
                }
            }
        }
    }
    fn get<T: DescribeType>(&self) {
        self.inside.fetch_add(1, Ordering::SeqCst);
        let d = <T as DescribeType>::type_descriptor();
        if self.inside.fetch_sub(1, Ordering::SeqCst) > 1 {
            self.overlapping.fetch_add(1, Ordering::Relaxed);
        }
        let name = std::any::type_name::<T>();
        // a box is described as its contents
        if d.type_name() != name && !name.starts_with("alloc::boxed::Box<") {
            self.fail(format!("{name}: the description is of {}", d.type_name()));
        }
        self.record(TypeId::of::<T>(), name, d, u32::MAX);
    }
    fn get_zoo(&self, (reg, ty): (&'static str, &'static Ty), nth: u32, r: &mut Rng) {
        self.inside.fetch_add(1, Ordering::SeqCst);
        let d = (ty.ops.desc)();
        if self.inside.fetch_sub(1, Ordering::SeqCst) > 1 {
            self.overlapping.fetch_add(1, Ordering::Relaxed);
        }
        self.record(ty.id, ty.name, d, nth);
        if r.chance(1, 3) && (ty.ops.possible)() && !matches!(ty.k, K::Any) && !reg.starts_with("Box") {
            // the description of a value
            let v = (ty.ops.gen)(r, 0);
            let d = v.desc_of();
            self.record(ty.id, ty.name, d, nth);
        }
    }
}

macro_rules! each_const {
    ($f:ident, $n:expr) => {
        match $n % N {
            0 => $f!(0),
            1 => $f!(1),
            2 => $f!(2),
            3 => $f!(3),
            4 => $f!(4),
            5 => $f!(5),
            6 => $f!(6),
            _ => $f!(7),
        }
    };
}

fn together(threads: usize, sh: &Arc<Shared>, seed: u64, f: impl Fn(usize, &Shared, &mut Rng) + Send + Sync + 'static) {
    let f = Arc::new(f);
    let bar = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (f, sh, bar) = (f.clone(), sh.clone(), bar.clone());
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                let mut r = Rng::derive(seed, "thread", t as u64);
                bar.wait();
                for _ in 0..r.below(4) {
                    std::hint::spin_loop();
                }
                f(t, &sh, &mut r);
            })
        })
        .collect();
    for h in hs {
        match h {
            Ok(h) => {
                if let Err(e) = h.join() {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    sh.fail(format!("a requesting thread panicked: {m}"));
                }
            }
            Err(_) => sh.fail("harness: no thread".into()),
        }
    }
}

pub fn child(reg: &Registry, seed: u64, threads: usize) -> i32 {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 14 << 30, rlim_max: 14 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p != last.0 {
                last = (p, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(45) {
                println!("STALL after {p} steps");
                unsafe { libc::_exit(78) };
            }
        }
    });
    let sh = Arc::new(Shared::default());
    let mut r = Rng::derive(seed, "child", threads as u64);
    let tys: Arc<Vec<(&'static str, &'static Ty)>> = Arc::new(reg.iter().map(|(n, t)| (*n, t())).collect());
    step();
    let mut scenarios = vec![0, 1, 2, 3, 4];
    for i in (1..scenarios.len()).rev() {
        scenarios.swap(i, r.below(i + 1));
    }
    for s in scenarios {
        let seed = r.u64();
        match s {
            0 => {
                let tys = tys.clone();
                let n = tys.len();
                // some processes race over the same order, some over different ones
                let common = r.chance(1, 2);
                together(threads, &sh, seed, move |_, sh, r| {
                    let mut order: Vec<u32> = (0..n as u32).collect();
                    let mut q = if common { Rng::new(seed) } else { r.clone() };
                    for i in (1..n).rev() {
                        order.swap(i, q.below(i + 1));
                    }
                    for i in &order {
                        sh.get_zoo(tys[*i as usize], *i, r);
                        if r.chance(1, 50) {
                            std::thread::sleep(Duration::from_micros(r.below(200) as u64));
                        }
                    }
                });
            }
            1 => {
                WAIT.store(true, Ordering::SeqCst);
                together(threads, &sh, seed, move |t, sh, r| {
                    for k in 0..N {
                        macro_rules! f {
                            ($n:literal) => {{
                                if (t + k) % 3 == 0 {
                                    sh.get::<Vec<Slow<$n>>>();
                                }
                                sh.get::<Slow<$n>>();
                                sh.get::<Inner<$n>>();
                                sh.get::<Box<Slow<$n>>>();
                            }};
                        }
                        each_const!(f, k);
                        if r.chance(1, 4) {
                            std::thread::yield_now();
                        }
                    }
                });
                WAIT.store(false, Ordering::SeqCst);
            }
            2 => together(threads, &sh, seed, move |t, sh, r| {
                for k in 0..N {
                    macro_rules! f {
                        ($n:literal) => {
                            match (t + r.below(2)) % 4 {
                                0 => {
                                    sh.get::<ReA<$n>>();
                                    sh.get::<ReC<$n>>();
                                }
                                1 => {
                                    sh.get::<ReB<$n>>();
                                    sh.get::<Vec<ReC<$n>>>();
                                }
                                2 => {
                                    sh.get::<(ReB<$n>, ReA<$n>)>();
                                    sh.get::<BTreeMap<String, ReA<$n>>>();
                                }
                                _ => {
                                    sh.get::<ReC<$n>>();
                                    sh.get::<ReB<$n>>();
                                    sh.get::<ReA<$n>>();
                                }
                            }
                        };
                    }
                    each_const!(f, k);
                }
            }),
            3 => together(threads, &sh, seed, move |t, sh, _| {
                for k in 0..N {
                    macro_rules! f {
                        ($n:literal) => {
                            match t % 3 {
                                0 => sh.get::<Elsewhere<$n>>(),
                                1 => sh.get::<ElsewhereOther<$n>>(),
                                _ => sh.get::<Option<Elsewhere<$n>>>(),
                            }
                        };
                    }
                    each_const!(f, k);
                }
            }),
            _ => {
                for p in PANICS.iter() {
                    p.store(r.below(2 * threads) as u32, Ordering::SeqCst);
                }
                together(threads, &sh, seed, move |t, sh, r| {
                    for k in 0..N {
                        let k = (k + t) % N;
                        macro_rules! f {
                            ($n:literal) => {{
                                for tries in 0.. {
                                    let whole = r.chance(1, 2);
                                    let got = catch_unwind(AssertUnwindSafe(|| if whole { sh.get::<Holder<$n>>() } else { sh.get::<Moody<$n>>() }));
                                    match got {
                                        Ok(()) => break,
                                        Err(e) => {
                                            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
                                            if m != "moody metadata" {
                                                sh.fail(format!("a request after a panic fails: {m}"));
                                                break;
                                            }
                                            sh.inside.store(0, Ordering::SeqCst);
                                            sh.caught.fetch_add(1, Ordering::SeqCst);
                                        }
                                    }
                                    if tries > 1000 {
                                        sh.fail("requests keep failing after metadata stopped panicking".into());
                                        break;
                                    }
                                    // others are not affected
                                    sh.get::<Outer<$n>>();
                                    sh.get::<Vec<Outer<$n>>>();
                                }
                                sh.get::<Moody<$n>>();
                                sh.get::<Holder<$n>>();
                            }};
                        }
                        each_const!(f, k);
                    }
                });
            }
        }
        let o = std::mem::take(&mut *sh.order.lock().unwrap());
        let mut h = std::collections::hash_map::DefaultHasher::new();
        std::hash::Hash::hash(&(s, o), &mut h);
        sh.orders.lock().unwrap().push(std::hash::Hasher::finish(&h));
    }
    // afterwards: what everybody got is complete, correct and still the same
    let mut o = Obs::default();
    let mut fails: Vec<String> = sh.fails.lock().unwrap().clone();
    let mut digest = std::collections::hash_map::DefaultHasher::new();
    let mut exact = std::collections::hash_map::DefaultHasher::new();
    for (i, (_, t)) in tys.iter().enumerate() {
        let d = (t.ops.desc)();
        sh.record(t.id, t.name, d.clone(), i as u32);
        if let Err(e) = check_descriptor(t, &d, &mut o) {
            fails.push(format!("{}: {e}", t.name));
        }
        std::hash::Hash::hash(&d.pretty_print_root().to_string(), &mut digest);
        // every part of it, as another process would receive it
        match canonical(&d) {
            Ok(text) => std::hash::Hash::hash(&text, &mut exact),
            Err(e) => fails.push(format!("{}: {e}", t.name)),
        }
        step();
    }
    if let Err(e) = check_same_names() {
        fails.push(e);
    }
    for k in 0..N {
        macro_rules! f {
            ($n:literal) => {{
                let d = <Slow<$n> as DescribeType>::type_descriptor();
                if d.get_type().get_meta::<u32>("x") != Some($n + 100) || d.as_struct().map_or(0, |s| s.field_types().count()) != 3 {
                    fails.push(format!("Slow<{}> is described incompletely", $n));
                }
                for d in [
                    <Slow<$n> as DescribeType>::type_descriptor(),
                    <ReA<$n> as DescribeType>::type_descriptor(),
                    <ReB<$n> as DescribeType>::type_descriptor(),
                    <ReC<$n> as DescribeType>::type_descriptor(),
                    <Elsewhere<$n> as DescribeType>::type_descriptor(),
                    <Moody<$n> as DescribeType>::type_descriptor(),
                    <Holder<$n> as DescribeType>::type_descriptor(),
                ] {
                    std::hash::Hash::hash(&d.pretty_print_root().to_string(), &mut digest);
                    std::hash::Hash::hash(&walk(d.get_type(), 5), &mut digest);
                    if let Ok(text) = canonical(&d) {
                        std::hash::Hash::hash(&text, &mut exact);
                    }
                    step();
                }
            }};
        }
        each_const!(f, k);
    }
    // repeated requests allocate nothing that stays
    let sh2 = sh.clone();
    let tys2 = tys.clone();
    let grown: Vec<i64> = (0..threads.min(4))
        .map(|_| {
            let (sh, tys) = (sh2.clone(), tys2.clone());
            std::thread::spawn(move || {
                let _ = &sh;
                let round = || {
                    for (_, t) in tys.iter() {
                        std::hint::black_box((t.ops.desc)());
                    }
                    for _ in 0..4 {
                        std::hint::black_box(<Slow<3> as DescribeType>::type_descriptor());
                        std::hint::black_box(<Moody<3> as DescribeType>::type_descriptor());
                        std::hint::black_box(Reflect::type_descriptor(&(1u8, String::new())));
                    }
                    step();
                };
                round();
                let before = HELD.with(|h| h.get());
                for _ in 0..5 {
                    round();
                }
                HELD.with(|h| h.get()) - before
            })
        })
        .collect::<Vec<_>>()
        .into_iter()
        .map(|h| h.join().unwrap_or(i64::MAX))
        .collect();
    for g in &grown {
        if *g > 1024 {
            fails.push(format!("repeated requests of {} types keep {g} more bytes", tys.len()));
        }
    }
    fails.extend(sh.fails.lock().unwrap().iter().cloned());
    fails.dedup();
    let met = MET.iter().filter(|m| m.load(Ordering::SeqCst)).count();
    let runs: usize = RUNS.iter().map(|m| m.load(Ordering::SeqCst)).sum();
    println!(
        "{}",
        serde_json::json!({
            "requests": sh.requests.load(Ordering::SeqCst), "first": sh.first.load(Ordering::SeqCst),
            "overlapping": sh.overlapping.load(Ordering::SeqCst), "met": met, "runs": runs,
            "caught": sh.caught.load(Ordering::SeqCst), "orders": *sh.orders.lock().unwrap(),
            "digest": std::hash::Hasher::finish(&digest), "exact": std::hash::Hasher::finish(&exact), "fails": fails,
        })
    );
    i32::from(!fails.is_empty())
}

/// The description written out, the order of entries left aside.
#[cfg(not(feature = "serde"))]
fn canonical(d: &TypeDescriptor) -> Result<Vec<u8>, String> {
    Ok(format!("{d:?}").into_bytes())
}

/// The description written out, the order of entries left aside.
#[cfg(feature = "serde")]
fn canonical(d: &TypeDescriptor) -> Result<Vec<u8>, String> {
    fn sorted(v: &mut ciborium::Value) {
        match v {
            ciborium::Value::Array(v) => v.iter_mut().for_each(sorted),
            ciborium::Value::Map(v) => {
                for (k, x) in v.iter_mut() {
                    sorted(k);
                    sorted(x);
                }
                v.sort_by_key(|(k, _)| format!("{k:?}"));
            }
            _ => {}
        }
    }
    let mut v = ciborium::Value::serialized(d).map_err(|e| format!("cannot be written: {e}"))?;
    sorted(&mut v);
    Ok(format!("{v:?}").into_bytes())
}

/// Names, kinds and metadata down to some depth.
pub fn walk(t: Type<'_>, d: usize) -> String {
    let mut s = format!("{}:", t.type_name());
    let mut metas: Vec<String> = t.get_meta_keys();
    metas.sort();
    s += &metas.join(",");
    if d == 0 {
        return s;
    }
    match t {
        Type::Struct(x) => {
            for f in x.field_types() {
                s += &format!("{{{} {}}}", f.name(), walk(f.get_type(), d - 1));
            }
        }
        Type::TupleStruct(x) => {
            for f in x.field_types() {
                s += &format!("({})", walk(f.get_type(), d - 1));
            }
        }
        Type::Tuple(x) => {
            for f in x.field_types() {
                s += &format!("({})", walk(f.get_type(), d - 1));
            }
        }
        Type::Enum(x) => {
            for v in x.variants() {
                s += &format!("<{}", v.name());
                for f in v.field_types() {
                    s += &walk(f.get_type(), d - 1);
                }
                s += ">";
            }
        }
        Type::List(x) => s += &walk(x.element_type(), d - 1),
        Type::Array(x) => s += &walk(x.element_type(), d - 1),
        Type::Map(x) => s += &(walk(x.key_type(), d - 1) + &walk(x.value_type(), d - 1)),
        _ => {}
    }
    s
}

trait MetaKeys {
    fn get_meta_keys(&self) -> Vec<String>;
}
impl MetaKeys for Type<'_> {
    fn get_meta_keys(&self) -> Vec<String> {
        ["x", "y", "s", "own"]
            .iter()
            .filter_map(|k| {
                let m = match self {
                    Type::Struct(t) => t.meta(k).map(|m| format!("{m:?}")),
                    Type::TupleStruct(t) => t.meta(k).map(|m| format!("{m:?}")),
                    Type::Enum(t) => t.meta(k).map(|m| format!("{m:?}")),
                    _ => None,
                };
                m.map(|m| format!("{k}={m}"))
            })
            .collect()
    }
}

// -- many processes -----------------------------------------------------------------------------

pub fn c14(cfg: &Cfg, _reg: &Registry) -> Obs {
    let digests: Arc<Mutex<Option<(u64, u64, String)>>> = Arc::default();
    let mut cfg2 = cfg.clone();
    // the children have many threads
    cfg2.threads = 4;
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => {
            let mut o = Obs::default();
            o.harness_errors.push(e.to_string());
            return o;
        }
    };
    each_case(&cfg2, "processes", cfg.n(64, 900), move |o, r| {
        let seed = r.u64() >> 1;
        let threads = *r.pick(&[1, 2, 2, 3, 4, 4, 6, 8, 8, 12, 16]);
        o.note(|| format!("c14-child --seed {seed} --threads {threads}"));
        let out = std::process::Command::new(&exe)
            .args(["c14-child", "--seed", &seed.to_string(), "--threads", &threads.to_string()])
            .stdin(std::process::Stdio::null())
            .output()
            .map_err(|e| format!("harness: {e}"))?;
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let code = out.status.code();
        ensure!(code != Some(78), "{threads} threads: no request makes progress any more (deadlock): {text}");
        let j: serde_json::Value = match text.lines().last().and_then(|l| serde_json::from_str(l).ok()) {
            Some(j) => j,
            None => {
                use std::os::unix::process::ExitStatusExt;
                if out.status.signal() == Some(9) {
                    panic!("the child was killed");
                }
                return Err(format!("{threads} threads: the process ended with {:?}: {} {}", out.status, text, String::from_utf8_lossy(&out.stderr)));
            }
        };
        ensure!(code == Some(0), "{threads} threads: {}", j["fails"]);
        let g = |k: &str| j[k].as_u64().unwrap_or(0);
        o.evn("requests", g("requests"));
        o.evn("types described", g("first"));
        o.evn("requests overlapping others", g("overlapping"));
        o.evn("descriptions computed by two threads at once", g("met"));
        o.evn("metadata computations", g("runs"));
        o.evn("panics while describing", g("caught"));
        for x in j["orders"].as_array().into_iter().flatten() {
            o.seen(&x.as_u64());
        }
        let d = g("digest");
        let ex = g("exact");
        let mut first = digests.lock().unwrap();
        match &*first {
            None => *first = Some((d, ex, format!("--seed {seed} --threads {threads}"))),
            Some((e, f, w)) => {
                ensure!(*e == d, "two processes describe the types differently: this one and {w}");
                ensure!(*f == ex, "the descriptions in this process and in {w} are not equal");
            }
        }
        o.ev(if threads == 1 { "single-threaded processes" } else { "processes with many threads" });
        o.sample(|| format!("{threads} threads: {} requests, {} overlapping, {} panics", g("requests"), g("overlapping"), g("caught")));
        Ok(())
    })
}
