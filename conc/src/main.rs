//! First requests of type descriptions raced under Miri, which picks another schedule for every seed
//! and reports data races, deadlocks and undefined behaviour.
#![allow(dead_code, deprecated)]
use mirror_mirror::type_info::{GetMeta, Type};
use mirror_mirror::{DescribeType, Reflect, TypeDescriptor};
use std::borrow::Cow;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};

thread_local!(static DEPTH: Cell<u32> = const { Cell::new(0) });
static PANICS: AtomicU32 = AtomicU32::new(2);

fn request<T: DescribeType>() -> u8 {
    let d = DEPTH.with(|d| d.get());
    if d < 2 {
        DEPTH.with(|x| x.set(d + 1));
        assert!(!<T as DescribeType>::type_descriptor().type_name().is_empty());
        DEPTH.with(|x| x.set(d));
    }
    7
}
fn elsewhere<T: DescribeType>() -> u8 {
    std::thread::spawn(|| assert!(!<T as DescribeType>::type_descriptor().type_name().is_empty())).join().unwrap();
    7
}
fn moody() -> u8 {
    if PANICS.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| x.checked_sub(1)).is_ok() {
        std::panic::resume_unwind(Box::new("moody"));
    }
    7
}

#[derive(Reflect, Clone, Debug)]
#[reflect(meta(x = request::<B>()))]
struct A(u8, Option<Box<B>>);
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(x = request::<A>()))]
enum B {
    X(Vec<A>),
    Y { c: bool },
}
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(x = elsewhere::<Vec<B>>()))]
struct C {
    b: B,
}
#[derive(Reflect, Clone, Debug)]
#[reflect(meta(x = moody()))]
struct D {
    a: u8,
}

type Desc = Cow<'static, TypeDescriptor>;
fn get(n: usize) -> Option<Desc> {
    Some(match n {
        0 => <A as DescribeType>::type_descriptor(),
        1 => <B as DescribeType>::type_descriptor(),
        2 => <C as DescribeType>::type_descriptor(),
        3 => std::panic::catch_unwind(|| <D as DescribeType>::type_descriptor()).ok()?,
        _ => <Vec<u8> as DescribeType>::type_descriptor(),
    })
}
fn complete(n: usize, t: Type<'_>) -> bool {
    match n {
        0 => t.as_tuple_struct().map_or(false, |s| s.field_types().count() == 2 && s.get_meta::<u8>("x") == Some(7)),
        1 => t.as_enum().map_or(false, |s| s.variants().count() == 2 && s.get_meta::<u8>("x") == Some(7)),
        2 => t.as_struct().map_or(false, |s| s.field_type("b").map_or(false, |f| complete(1, f.get_type()))),
        3 => t.as_struct().map_or(false, |s| s.get_meta::<u8>("x") == Some(7)),
        _ => t.as_list().is_some(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<&str>() != Some(&"moody") {
            eprintln!("PANIC {i}");
        }
    }));
    let got: Arc<Mutex<Vec<(usize, Desc)>>> = Arc::default();
    let hs: Vec<_> = (0..3usize)
        .map(|t| {
            let got = got.clone();
            std::thread::spawn(move || {
                for k in 0..5 {
                    let n = (k * (t + 1) + t) % 5;
                    while {
                        let d = get(n);
                        let again = d.is_none();
                        if let Some(d) = d {
                            got.lock().unwrap().push((n, d));
                        }
                        again
                    } {}
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let got = got.lock().unwrap();
    let mut order = String::new();
    for (n, d) in got.iter() {
        let (_, first) = got.iter().find(|(m, _)| m == n).unwrap();
        assert!(matches!(d, Cow::Borrowed(_)), "not shared");
        assert!(std::ptr::eq(&**first as *const TypeDescriptor, &**d), "two descriptions of one type");
        assert!(complete(*n, d.get_type()), "incomplete description {n}");
        order.push_str(&n.to_string());
    }
    println!("ORDER {order}");
}
