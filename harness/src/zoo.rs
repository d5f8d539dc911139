//! Zoo types: every type the workloads use knows natively (without the library) how to generate
//! values, what a value's model is, what the type's declaration is and how it prints.

use mirror_mirror::{DescribeType, FromReflect, Reflect, TypeDescriptor, Value};
use std::any::{type_name, Any, TypeId};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::num::*;
use std::ops::*;
use std::sync::Mutex;
use std::time::Duration;

use crate::model::*;
use crate::rng::Rng;

pub trait Zoo: Reflect + FromReflect + DescribeType + Sized {
    fn shape() -> K;
    fn meta() -> Vec<(&'static str, M)> {
        vec![]
    }
    fn docs() -> Vec<&'static str> {
        vec![]
    }
    fn custom() -> Option<fn(&M) -> Conv> {
        None
    }
    /// Whether the type has any values to generate.
    fn possible() -> bool {
        true
    }
    fn gen(r: &mut Rng, d: u32) -> Self;
    fn model(&self) -> M;
    fn skips(&self) -> Vec<u64> {
        vec![]
    }
    fn set_skips(&mut self, _n: u64) {}
    fn dbg(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result;
    fn dbg_generic(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result {
        self.dbg(f, short)
    }

    fn name() -> &'static str {
        type_name::<Self>()
    }
    fn id() -> TypeId {
        TypeId::of::<Self>()
    }
    fn native(x: &dyn Any) -> Option<M> {
        x.downcast_ref::<Self>().map(|x| x.model())
    }
    /// For use with another name in the same trait (number-like wrappers).
    fn ty() -> &'static Ty {
        ty_of::<Self>()
    }
}

pub fn ty_of<T: Zoo>() -> &'static Ty {
    static CACHE: Mutex<Option<HashMap<TypeId, &'static Ty>>> = Mutex::new(None);
    let id = TypeId::of::<T>();
    if let Some(t) = CACHE.lock().unwrap().get_or_insert_with(HashMap::new).get(&id) {
        return t;
    }
    let ty: &'static Ty = Box::leak(Box::new(Ty {
        name: T::name(),
        id: T::id(),
        k: T::shape(),
        meta: T::meta(),
        docs: T::docs(),
        custom: T::custom(),
        native: T::native,
        ops: Ops {
            possible: T::possible,
            gen: |r, d| {
                LENS.with(|l| l.set(400));
                Box::new(Own(T::gen(r, d)))
            },
            conv: |x| T::from_reflect(x).map(|x| Box::new(Own(x)) as Box<dyn ZooDyn>),
            desc: <T as DescribeType>::type_descriptor,
            boxed: |x| x.into_reflect(),
        },
    }));
    CACHE.lock().unwrap().get_or_insert_with(HashMap::new).insert(id, ty);
    ty
}

pub struct Own<T>(pub T);

pub struct Dbg<'a, T>(pub &'a T, pub bool);
impl<'a, T: Zoo> fmt::Debug for Dbg<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.dbg(f, self.1)
    }
}

impl<T: Zoo> ZooDyn for Own<T> {
    fn r(&self) -> &dyn Reflect {
        &self.0
    }
    fn r_mut(&mut self) -> &mut dyn Reflect {
        &mut self.0
    }
    fn into_reflect(self: Box<Self>) -> Box<dyn Reflect> {
        Box::new(self.0)
    }
    fn into_value(self: Box<Self>) -> Value {
        self.0.to_value()
    }
    fn model(&self) -> M {
        self.0.model()
    }
    fn skips(&self) -> Vec<u64> {
        self.0.skips()
    }
    fn set_skips(&mut self, n: u64) {
        self.0.set_skips(n)
    }
    fn ty(&self) -> &'static Ty {
        ty_of::<T>()
    }
    fn dbg(&self, alt: bool, short: bool) -> String {
        if alt {
            format!("{:#?}", Dbg(&self.0, short))
        } else {
            format!("{:?}", Dbg(&self.0, short))
        }
    }
    fn desc_of(&self) -> Cow<'static, TypeDescriptor> {
        self.0.type_descriptor()
    }
}

/// How a type is named in generic debug output.
pub fn dbg_name(full: &'static str, short: bool) -> String {
    if !short {
        return full.to_owned();
    }
    // last path segment of the head
    let head = full.split('<').next().unwrap_or(full);
    head.rsplit("::").next().unwrap_or(head).to_owned()
}

/// A type that is not reflected, for excluded fields.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Sk(pub u64);
impl Default for Sk {
    fn default() -> Self {
        Sk(SK_DEFAULT)
    }
}
pub const SK_DEFAULT: u64 = 0xDEFA;
pub fn gen_sk(r: &mut Rng) -> Sk {
    Sk(r.u64() | 1 << 40)
}

thread_local! {
    /// how many boxes have been formatted
    pub static BOXES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    /// how many collections at depth zero may still have elements
    static LENS: std::cell::Cell<u32> = const { std::cell::Cell::new(400) };
}

pub fn gen_len(r: &mut Rng, d: u32) -> usize {
    if d == 0 {
        if LENS.with(|l| l.replace(l.get().saturating_sub(1))) == 0 {
            return 0;
        }
        return if r.chance(1, 4) { 1 } else { 0 };
    }
    // long collections, of small elements only
    if d <= 2 && r.chance(1, if d == 1 { 40 } else { 80 }) {
        return match r.below(if d == 1 { 6 } else { 2 }) {
            0 => 14 + r.below(6),
            1 => 30 + r.below(6),
            2 => 62 + r.below(6),
            3 => 126 + r.below(6),
            _ => 254 + r.below(6),
        };
    }
    match r.below(16) {
        0..=2 => 0,
        3..=6 => 1,
        7..=10 => 2,
        11..=13 => 3,
        14 => 4 + r.below(3),
        _ => 5 + r.below(9),
    }
}

pub fn gen_string(r: &mut Rng) -> String {
    const SPECIAL: [&str; 24] = [
        "", "a", "b", "foo", "\0", "\"", "\\", "'", "\n", "\t", "{}", "ß", "日本", "🦀", "e\u{301}",
        "r#type", "0", "1", "-1", "[0]", "::A", ".x", " ", "\u{202e}abc",
    ];
    match r.below(8) {
        0..=3 => r.pick(&SPECIAL).to_string(),
        4 => format!("s{}", r.below(5)),
        5 => {
            let n = r.below(12);
            (0..n).map(|_| gen_char(r)).collect()
        }
        6 => r.below(1000).to_string(),
        _ => {
            let n = match r.below(6) {
                0 => 255,
                1 => 256,
                2 => 257,
                _ => r.below(40),
            };
            "x".repeat(n)
        }
    }
}

pub fn gen_char(r: &mut Rng) -> char {
    match r.below(6) {
        0 => *r.pick(&['\0', '\'', '"', '\\', '\n', '\u{7f}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{fffd}', '\u{301}']),
        1..=3 => (b'a' + r.below(26) as u8) as char,
        4 => char::from_u32(r.below(0x800) as u32).unwrap_or('x'),
        _ => char::from_u32((r.u64() % 0x110000) as u32).unwrap_or('y'),
    }
}

macro_rules! gen_int {
    ($name:ident, $t:ty) => {
        pub fn $name(r: &mut Rng) -> $t {
            match r.below(8) {
                0 => <$t>::MAX,
                1 => <$t>::MIN,
                2 => 0,
                3 => 1,
                4 | 5 => r.below(5) as $t,
                6 => {
                    let bits = <$t>::BITS as usize;
                    let x = (r.u128() as $t) & <$t>::MAX;
                    x >> r.below(bits)
                }
                _ => r.u128() as $t,
            }
        }
    };
}
gen_int!(gen_usize, usize);
gen_int!(gen_u8, u8);
gen_int!(gen_u16, u16);
gen_int!(gen_u32, u32);
gen_int!(gen_u64, u64);
gen_int!(gen_u128, u128);
gen_int!(gen_i8, i8);
gen_int!(gen_i16, i16);
gen_int!(gen_i32, i32);
gen_int!(gen_i64, i64);
gen_int!(gen_i128, i128);

pub fn gen_f32(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => *r.pick(&[
            f32::NAN,
            f32::INFINITY,
            f32::NEG_INFINITY,
            0.0,
            -0.0,
            f32::MIN_POSITIVE,
            f32::from_bits(1),
            f32::MAX,
            f32::from_bits(0x7fc0_1234),
            f32::from_bits(0xffc0_0001),
        ]),
        1..=3 => r.below(9) as f32 - 4.0,
        4 => r.below(1000) as f32 / 8.0,
        _ => f32::from_bits(r.u64() as u32 | 0x0040_0000),
    }
}
pub fn gen_f64(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[
            f64::NAN,
            f64::INFINITY,
            f64::NEG_INFINITY,
            0.0,
            -0.0,
            f64::MIN_POSITIVE,
            f64::from_bits(1),
            f64::MAX,
            f64::from_bits(0x7ff8_0000_0000_1234),
            f64::from_bits(0xfff8_0000_0000_0001),
        ]),
        1..=3 => r.below(9) as f64 - 4.0,
        4 => r.below(1000) as f64 / 8.0,
        _ => f64::from_bits(r.u64() | 0x0008_0000_0000_0000),
    }
}

pub fn gen_sc(r: &mut Rng, k: SK) -> Sc {
    match k {
        SK::Usize => Sc::Usize(gen_usize(r)),
        SK::U8 => Sc::U8(gen_u8(r)),
        SK::U16 => Sc::U16(gen_u16(r)),
        SK::U32 => Sc::U32(gen_u32(r)),
        SK::U64 => Sc::U64(gen_u64(r)),
        SK::U128 => Sc::U128(gen_u128(r)),
        SK::I8 => Sc::I8(gen_i8(r)),
        SK::I16 => Sc::I16(gen_i16(r)),
        SK::I32 => Sc::I32(gen_i32(r)),
        SK::I64 => Sc::I64(gen_i64(r)),
        SK::I128 => Sc::I128(gen_i128(r)),
        SK::Bool => Sc::Bool(r.chance(1, 2)),
        SK::Char => Sc::Char(gen_char(r)),
        SK::F32 => Sc::F32(gen_f32(r).to_bits()),
        SK::F64 => Sc::F64(gen_f64(r).to_bits()),
        SK::Str => Sc::Str(gen_string(r)),
    }
}

macro_rules! zoo_scalar {
    ($($t:ty, $sk:ident, $gen:expr, $to:expr;)*) => {$(
        impl Zoo for $t {
            fn shape() -> K { K::Scalar(SK::$sk) }
            fn gen(r: &mut Rng, _d: u32) -> Self { ($gen)(r) }
            fn model(&self) -> M { M::S(Sc::$sk(($to)(self))) }
            fn dbg(&self, f: &mut fmt::Formatter<'_>, _: bool) -> fmt::Result { fmt::Debug::fmt(self, f) }
        }
    )*};
}
zoo_scalar! {
    usize, Usize, gen_usize, |x: &usize| *x;
    u8, U8, gen_u8, |x: &u8| *x;
    u16, U16, gen_u16, |x: &u16| *x;
    u32, U32, gen_u32, |x: &u32| *x;
    u64, U64, gen_u64, |x: &u64| *x;
    u128, U128, gen_u128, |x: &u128| *x;
    i8, I8, gen_i8, |x: &i8| *x;
    i16, I16, gen_i16, |x: &i16| *x;
    i32, I32, gen_i32, |x: &i32| *x;
    i64, I64, gen_i64, |x: &i64| *x;
    i128, I128, gen_i128, |x: &i128| *x;
    bool, Bool, |r: &mut Rng| r.chance(1, 2), |x: &bool| *x;
    char, Char, gen_char, |x: &char| *x;
    f32, F32, gen_f32, |x: &f32| x.to_bits();
    f64, F64, gen_f64, |x: &f64| x.to_bits();
    String, Str, gen_string, |x: &String| x.clone();
}

macro_rules! zoo_nonzero {
    ($($t:ident, $sk:ident, $gen:ident;)*) => {$(
        impl Zoo for $t {
            fn shape() -> K { K::Via(SK::$sk, |s| matches!(s, Sc::$sk(x) if *x != 0)) }
            fn gen(r: &mut Rng, _d: u32) -> Self { $t::new($gen(r)).unwrap_or($t::MIN) }
            fn model(&self) -> M { M::Via(type_name::<$t>(), Sc::$sk(self.get())) }
            fn dbg(&self, f: &mut fmt::Formatter<'_>, _: bool) -> fmt::Result { fmt::Debug::fmt(self, f) }
        }
    )*};
}
zoo_nonzero! {
    NonZeroUsize, Usize, gen_usize;
    NonZeroU8, U8, gen_u8;
    NonZeroU16, U16, gen_u16;
    NonZeroU32, U32, gen_u32;
    NonZeroU64, U64, gen_u64;
    NonZeroU128, U128, gen_u128;
    NonZeroI8, I8, gen_i8;
    NonZeroI16, I16, gen_i16;
    NonZeroI32, I32, gen_i32;
    NonZeroI64, I64, gen_i64;
    NonZeroI128, I128, gen_i128;
}

impl Zoo for Duration {
    fn shape() -> K {
        K::Via(SK::F32, |s| match s {
            Sc::F32(b) => {
                let x = f32::from_bits(*b);
                x >= 0.0 && x < 18446744073709551616.0
            }
            _ => false,
        })
    }
    fn gen(r: &mut Rng, _d: u32) -> Self {
        // exactly representable both as nanoseconds and as f32 seconds
        match r.below(4) {
            0 => Duration::ZERO,
            1 => Duration::from_millis(r.below(4000) as u64 * 125),
            2 => Duration::from_secs(r.below(1 << 20) as u64),
            _ => Duration::from_secs(1u64 << r.below(63)),
        }
    }
    fn model(&self) -> M {
        M::Via(type_name::<Duration>(), Sc::F32(self.as_secs_f32().to_bits()))
    }
    fn dbg(&self, f: &mut fmt::Formatter<'_>, _: bool) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
    fn dbg_generic(&self, f: &mut fmt::Formatter<'_>, _: bool) -> fmt::Result {
        fmt::Debug::fmt(&self.as_secs_f32(), f)
    }
}

impl Zoo for Value {
    fn shape() -> K {
        K::Any
    }
    fn gen(r: &mut Rng, d: u32) -> Self {
        crate::gen::gen_m(r, d.min(2)).dynamic()
    }
    fn model(&self) -> M {
        crate::observe::read_value(self)
    }
    fn dbg(&self, f: &mut fmt::Formatter<'_>, _: bool) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
    fn native(_x: &dyn Any) -> Option<M> {
        // a dynamic value shows itself as what it holds
        None
    }
}

impl<T: Zoo> Zoo for Vec<T> {
    fn shape() -> K {
        K::List(ty_of::<T>)
    }
    fn gen(r: &mut Rng, d: u32) -> Self {
        let n = if !T::possible() {
            0
        } else if d > 0 && std::mem::size_of::<T>() <= 8 && r.chance(1, 150) {
            *r.pick(&[255usize, 256, 257, 300])
        } else {
            gen_len(r, d)
        };
        (0..n).map(|_| T::gen(r, d.saturating_sub(1))).collect()
    }
    fn model(&self) -> M {
        M::List(self.iter().map(|x| x.model()).collect())
    }
    fn dbg(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result {
        f.debug_list().entries(self.iter().map(|x| Dbg(x, short))).finish()
    }
}

impl<T: Zoo, const N: usize> Zoo for [T; N] {
    fn shape() -> K {
        K::Array(ty_of::<T>, N)
    }
    fn gen(r: &mut Rng, d: u32) -> Self {
        std::array::from_fn(|_| T::gen(r, d.saturating_sub(1)))
    }
    fn model(&self) -> M {
        M::Array(self.iter().map(|x| x.model()).collect())
    }
    fn dbg(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result {
        f.debug_list().entries(self.iter().map(|x| Dbg(x, short))).finish()
    }
}

impl<A: Zoo + Ord, B: Zoo> Zoo for BTreeMap<A, B> {
    fn shape() -> K {
        K::Map(ty_of::<A>, ty_of::<B>)
    }
    fn gen(r: &mut Rng, d: u32) -> Self {
        let n = if !A::possible() || !B::possible() {
            0
        } else if d > 0 && r.chance(1, 200) && std::mem::size_of::<A>() <= 8 && std::mem::size_of::<B>() <= 8 {
            300
        } else {
            gen_len(r, d)
        };
        (0..n).map(|_| (A::gen(r, d.saturating_sub(1)), B::gen(r, d.saturating_sub(1)))).collect()
    }
    fn model(&self) -> M {
        M::map(self.iter().map(|(k, v)| (k.model(), v.model())).collect())
    }
    fn dbg(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result {
        f.debug_map().entries(self.iter().map(|(k, v)| (Dbg(k, short), Dbg(v, short)))).finish()
    }
}

impl<T: Zoo> Zoo for Option<T> {
    fn shape() -> K {
        K::Enum(vec![
            VariantTy::new("None", VK::Unit, vec![]),
            VariantTy::new("Some", VK::Tuple, vec![FieldTy::at(ty_of::<T>)]),
        ])
    }
    fn gen(r: &mut Rng, d: u32) -> Self {
        if d == 0 || r.chance(1, 3) || !T::possible() {
            None
        } else {
            Some(T::gen(r, d - 1))
        }
    }
    fn model(&self) -> M {
        match self {
            None => M::Enum("None".into(), F::Unit),
            Some(x) => M::Enum("Some".into(), F::Tuple(vec![x.model()])),
        }
    }
    fn dbg(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result {
        match self {
            None => f.write_str("None"),
            Some(x) => f.debug_tuple("Some").field(&Dbg(x, short)).finish(),
        }
    }
}

impl<T: Zoo, E: Zoo> Zoo for Result<T, E> {
    fn shape() -> K {
        K::Enum(vec![
            VariantTy::new("Ok", VK::Tuple, vec![FieldTy::at(ty_of::<T>)]),
            VariantTy::new("Err", VK::Tuple, vec![FieldTy::at(ty_of::<E>)]),
        ])
    }
    fn gen(r: &mut Rng, d: u32) -> Self {
        if if T::possible() && E::possible() { r.chance(1, 2) } else { T::possible() } {
            Ok(T::gen(r, d.saturating_sub(1)))
        } else {
            Err(E::gen(r, d.saturating_sub(1)))
        }
    }
    fn model(&self) -> M {
        match self {
            Ok(x) => M::Enum("Ok".into(), F::Tuple(vec![x.model()])),
            Err(x) => M::Enum("Err".into(), F::Tuple(vec![x.model()])),
        }
    }
    fn dbg(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result {
        match self {
            Ok(x) => f.debug_tuple("Ok").field(&Dbg(x, short)).finish(),
            Err(x) => f.debug_tuple("Err").field(&Dbg(x, short)).finish(),
        }
    }
}

impl<T: Zoo> Zoo for Box<T> {
    fn shape() -> K {
        T::shape()
    }
    fn meta() -> Vec<(&'static str, M)> {
        T::meta()
    }
    fn docs() -> Vec<&'static str> {
        T::docs()
    }
    fn custom() -> Option<fn(&M) -> Conv> {
        T::custom()
    }
    fn possible() -> bool {
        T::possible()
    }
    fn gen(r: &mut Rng, d: u32) -> Self {
        Box::new(T::gen(r, d))
    }
    fn model(&self) -> M {
        (**self).model()
    }
    fn skips(&self) -> Vec<u64> {
        (**self).skips()
    }
    fn set_skips(&mut self, n: u64) {
        (**self).set_skips(n)
    }
    fn dbg(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result {
        BOXES.with(|b| b.set(b.get() + 1));
        (**self).dbg_generic(f, short)
    }
    fn name() -> &'static str {
        T::name()
    }
    fn id() -> TypeId {
        T::id()
    }
    fn native(x: &dyn Any) -> Option<M> {
        T::native(x)
    }
}

macro_rules! zoo_range {
    ($t:ident { $($f:ident),* }, $name:expr) => {
        impl<T: Zoo> Zoo for $t<T> {
            fn shape() -> K { K::Struct(vec![$(FieldTy::named(stringify!($f), ty_of::<T>)),*]) }
            fn gen(r: &mut Rng, d: u32) -> Self { $t { $($f: T::gen(r, d.saturating_sub(1))),* } }
            fn model(&self) -> M { M::Struct(vec![$((stringify!($f).to_owned(), self.$f.model())),*]) }
            fn dbg(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result {
                f.debug_struct(&dbg_name(type_name::<Self>(), short))
                    $(.field(stringify!($f), &Dbg(&self.$f, short)))*.finish()
            }
        }
    };
}
zoo_range!(Range { start, end }, "Range");
zoo_range!(RangeFrom { start }, "RangeFrom");
zoo_range!(RangeTo { end }, "RangeTo");
zoo_range!(RangeToInclusive { end }, "RangeToInclusive");

impl Zoo for RangeFull {
    fn shape() -> K {
        K::Struct(vec![])
    }
    fn gen(_r: &mut Rng, _d: u32) -> Self {
        ..
    }
    fn model(&self) -> M {
        M::Struct(vec![])
    }
    fn dbg(&self, f: &mut fmt::Formatter<'_>, _: bool) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
    fn dbg_generic(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result {
        f.write_str(&dbg_name(type_name::<Self>(), short))
    }
}

macro_rules! zoo_tuple {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Zoo + Clone),*> Zoo for ($($t,)*) {
            fn shape() -> K { K::Tuple(vec![$(FieldTy::at(ty_of::<$t>)),*]) }
            #[allow(unused_variables, clippy::unused_unit)]
            fn gen(r: &mut Rng, d: u32) -> Self { ($($t::gen(r, d.saturating_sub(1)),)*) }
            fn model(&self) -> M { M::Tuple(vec![$(self.$i.model()),*]) }
            #[allow(unused_variables, unused_mut)]
            fn dbg(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result {
                let n = 0usize $(+ { let _ = $i; 1 })*;
                if n == 0 { return f.write_str("()"); }
                let mut t = f.debug_tuple("");
                $(t.field(&Dbg(&self.$i, short));)*
                t.finish()
            }
        }
    };
}
zoo_tuple!();
zoo_tuple!(A 0);
zoo_tuple!(A 0, B 1);
zoo_tuple!(A 0, B 1, C 2);
zoo_tuple!(A 0, B 1, C 2, D 3);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, G 5);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, L 9);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, L 9, N 10);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, L 9, N 10, O 11);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, L 9, N 10, O 11, P 12);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, L 9, N 10, O 11, P 12, Q 13);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, L 9, N 10, O 11, P 12, Q 13, R 14);
zoo_tuple!(A 0, B 1, C 2, D 3, E 4, G 5, H 6, I 7, J 8, L 9, N 10, O 11, P 12, Q 13, R 14, S 15);

macro_rules! zoo_glam {
    ($t:ty { $($f:ident : $ft:ty),* }) => {
        impl Zoo for $t {
            fn shape() -> K { K::Struct(vec![$(FieldTy::named(stringify!($f), ty_of::<$ft>)),*]) }
            fn gen(r: &mut Rng, d: u32) -> Self {
                let mut x = <$t>::default();
                $(x.$f = <$ft>::gen(r, d);)*
                x
            }
            fn model(&self) -> M { M::Struct(vec![$((stringify!($f).to_owned(), self.$f.model())),*]) }
            fn dbg(&self, f: &mut fmt::Formatter<'_>, _: bool) -> fmt::Result { fmt::Debug::fmt(self, f) }
            fn dbg_generic(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result {
                f.debug_struct(&dbg_name(type_name::<Self>(), short))
                    $(.field(stringify!($f), &Dbg(&self.$f, short)))*.finish()
            }
        }
    };
}
#[cfg(feature = "glam")]
zoo_glam!(glam::Vec2 { x: f32, y: f32 });
#[cfg(feature = "glam")]
zoo_glam!(glam::Vec3 { x: f32, y: f32, z: f32 });
#[cfg(feature = "glam")]
zoo_glam!(glam::Mat3 { x_axis: glam::Vec3, y_axis: glam::Vec3, z_axis: glam::Vec3 });

#[cfg(feature = "macaw")]
impl Zoo for macaw::ColorRgba8 {
    fn shape() -> K {
        K::TupleStruct(vec![FieldTy::at(ty_of::<[u8; 4]>)])
    }
    fn gen(r: &mut Rng, d: u32) -> Self {
        macaw::ColorRgba8(<[u8; 4]>::gen(r, d))
    }
    fn model(&self) -> M {
        M::TupleStruct(vec![self.0.model()])
    }
    fn dbg(&self, f: &mut fmt::Formatter<'_>, _: bool) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
    fn dbg_generic(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result {
        f.debug_tuple(&dbg_name(type_name::<Self>(), short)).field(&Dbg(&self.0, short)).finish()
    }
}

/// Custom conversions used by generated declarations.
pub fn lenient_i32(x: &dyn Reflect) -> Option<i32> {
    if let Some(n) = x.downcast_ref::<i32>() {
        return Some(*n);
    }
    x.downcast_ref::<String>()?.parse().ok()
}
pub fn lenient_i32_m(m: &M) -> Option<M> {
    match m {
        M::S(Sc::I32(n)) => Some(M::S(Sc::I32(*n))),
        M::S(Sc::Str(s)) => s.parse::<i32>().ok().map(|n| M::S(Sc::I32(n))),
        _ => None,
    }
}
pub fn lenient_string(x: &dyn Reflect) -> Option<String> {
    if let Some(n) = x.downcast_ref::<u8>() {
        return Some(format!("#{n}"));
    }
    x.downcast_ref::<String>().cloned()
}
pub fn lenient_string_m(m: &M) -> Option<M> {
    match m {
        M::S(Sc::U8(n)) => Some(M::S(Sc::Str(format!("#{n}")))),
        M::S(Sc::Str(s)) => Some(M::S(Sc::Str(s.clone()))),
        _ => None,
    }
}

// ---------------------------------------------------------------------------------------------
// hand-written implementations

/// An opaque type without a default, implemented by hand.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Opq(pub u64);
/// An opaque type that declares a default.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct OpqD(pub u64);

macro_rules! manual_opaque {
    ($t:ident, $node:expr, $default:expr, $meta:expr) => {
        impl DescribeType for $t {
            fn build(graph: &mut mirror_mirror::type_info::graph::TypeGraph) -> mirror_mirror::type_info::graph::NodeId {
                graph.get_or_build_node_with::<Self, _>(|graph| ($node)(graph))
            }
        }
        impl Reflect for $t {
            fn type_descriptor(&self) -> Cow<'static, TypeDescriptor> { <Self as DescribeType>::type_descriptor() }
            fn as_any(&self) -> &dyn Any { self }
            fn as_any_mut(&mut self) -> &mut dyn Any { self }
            fn as_reflect(&self) -> &dyn Reflect { self }
            fn as_reflect_mut(&mut self) -> &mut dyn Reflect { self }
            fn reflect_owned(self: Box<Self>) -> mirror_mirror::ReflectOwned { mirror_mirror::ReflectOwned::Opaque(self) }
            fn reflect_ref(&self) -> mirror_mirror::ReflectRef<'_> { mirror_mirror::ReflectRef::Opaque(self) }
            fn reflect_mut(&mut self) -> mirror_mirror::ReflectMut<'_> { mirror_mirror::ReflectMut::Opaque(self) }
            fn patch(&mut self, value: &dyn Reflect) {
                if let Some(x) = Self::from_reflect(value) { *self = x; }
            }
            fn to_value(&self) -> Value { Value::u64(self.0) }
            fn clone_reflect(&self) -> Box<dyn Reflect> { Box::new(self.clone()) }
            fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self, f) }
        }
        impl FromReflect for $t {
            fn from_reflect(x: &dyn Reflect) -> Option<Self> {
                if let Some(x) = x.downcast_ref::<Self>() { return Some(x.clone()); }
                x.downcast_ref::<u64>().map(|x| $t(*x))
            }
        }
        impl From<$t> for Value { fn from(x: $t) -> Value { Value::u64(x.0) } }
        impl Zoo for $t {
            fn shape() -> K { K::Opaque($default) }
            fn meta() -> Vec<(&'static str, M)> { $meta }
            fn gen(r: &mut Rng, _d: u32) -> Self { $t(gen_u64(r)) }
            fn model(&self) -> M { M::Opaque(type_name::<$t>(), self.0) }
            fn dbg(&self, f: &mut fmt::Formatter<'_>, _: bool) -> fmt::Result { fmt::Debug::fmt(self, f) }
            fn dbg_generic(&self, f: &mut fmt::Formatter<'_>, short: bool) -> fmt::Result { f.write_str(&dbg_name(type_name::<$t>(), short)) }
            fn custom() -> Option<fn(&M) -> Conv> {
                Some(|m| match m {
                    M::Opaque(n, id) if *n == type_name::<$t>() => Conv::Ok(m.clone_with(*n, *id)),
                    M::S(Sc::U64(x)) => Conv::Ok(M::Opaque(type_name::<$t>(), *x)),
                    _ => Conv::Fail,
                })
            }
        }
    };
}
impl M {
    fn clone_with(&self, n: &'static str, id: u64) -> M {
        M::Opaque(n, id)
    }
}
manual_opaque!(
    Opq,
    |graph| mirror_mirror::type_info::graph::OpaqueNode::new::<Opq>(Default::default(), graph),
    None,
    vec![]
);
manual_opaque!(
    OpqD,
    |graph| mirror_mirror::type_info::graph::OpaqueNode::new::<OpqD>(BTreeMap::from([("unit", Value::from("m"))]), graph)
        .default_value(Value::u64(42)),
    Some(M::S(Sc::U64(42))),
    vec![("unit", M::str("m"))]
);

pub use std::convert::Infallible;

/// Types without any values.
#[macro_export]
macro_rules! never {
    ($t:ty, $meta:expr, $docs:expr) => {
        impl Zoo for $t {
            fn shape() -> K {
                K::Enum(vec![])
            }
            fn meta() -> Vec<(&'static str, M)> {
                $meta
            }
            fn docs() -> Vec<&'static str> {
                $docs
            }
            fn possible() -> bool {
                false
            }
            fn gen(_: &mut Rng, _: u32) -> Self {
                unreachable!("a value of a type without values")
            }
            fn model(&self) -> M {
                match *self {}
            }
            fn dbg(&self, _: &mut std::fmt::Formatter<'_>, _: bool) -> std::fmt::Result {
                match *self {}
            }
        }
    };
}
never!(Infallible, vec![], vec![]);

/// What is only there with the math types.
#[cfg(feature = "glam")]
#[macro_export]
macro_rules! with_glam {
    ($($t:tt)*) => { $($t)* };
}
#[cfg(not(feature = "glam"))]
#[macro_export]
macro_rules! with_glam {
    ($($t:tt)*) => {};
}
#[cfg(feature = "macaw")]
#[macro_export]
macro_rules! with_macaw {
    ($($t:tt)*) => { $($t)* };
}
#[cfg(not(feature = "macaw"))]
#[macro_export]
macro_rules! with_macaw {
    ($($t:tt)*) => {};
}
