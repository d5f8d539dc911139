//! C04 C05 C12 C16 C18: fields, paths, collections, visiting and views.

use mirror_mirror::enum_::{VariantField, VariantFieldMut, VariantKind};
use mirror_mirror::key_path::GetPath;
use mirror_mirror::try_visit::{try_visit, TryVisit};
use mirror_mirror::type_info::{OpaqueType, Type};
use mirror_mirror::{
    Enum, GetField, GetFieldMut, Reflect, ReflectMut, ReflectOwned, ReflectRef, Struct, Value,
};

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mon_conv::gen_source;
use crate::observe::*;
use crate::oracle::{self, key_path, show_path, PK};
use crate::rng::Rng;

pub enum Subj {
    T(Box<dyn ZooDyn>),
    D(Value),
}

impl Subj {
    pub fn r(&self) -> &dyn Reflect {
        match self {
            Subj::T(v) => v.r(),
            Subj::D(v) => v,
        }
    }
    pub fn r_mut(&mut self) -> &mut dyn Reflect {
        match self {
            Subj::T(v) => v.r_mut(),
            Subj::D(v) => v,
        }
    }
    pub fn model(&self) -> M {
        match self {
            Subj::T(v) => v.model(),
            Subj::D(v) => read_value(v),
        }
    }
    pub fn skips(&self) -> Vec<u64> {
        match self {
            Subj::T(v) => v.skips(),
            Subj::D(_) => vec![],
        }
    }
}

/// A typed value of the type or its dynamic counterpart.
pub fn gen_subj(r: &mut Rng, ty: &'static Ty) -> (Subj, Option<&'static Ty>, M) {
    let (v, m) = gen_value(r, ty);
    if r.chance(2, 3) {
        (Subj::T(v), Some(ty), m)
    } else {
        let m = m.erased();
        (Subj::D(m.dynamic()), None, m)
    }
}

/// Something to write over `old` and what must come out.
fn gen_write(r: &mut Rng, ty: Option<&'static Ty>, old: &M) -> Option<(Value, M)> {
    let alt = match ty {
        Some(t) => gen_value(r, t).1.erased(),
        None => match old {
            M::S(s) => M::S(other_scalar(r, s)),
            _ => mutate(r, &old.erased()).0,
        },
    };
    let want = oracle::patch(ty, old, &alt)?;
    Some((alt.dynamic(), want))
}

pub fn expect_read(what: &str, got: Option<&dyn Reflect>, want: &M) -> Res {
    match got {
        None => Err(format!("{what} gave nothing, expected {}", short(want))),
        Some(x) => {
            let m = read(x)?;
            ensure!(m == want.shown(), "{what}: {}", diff(&want.shown(), &m));
            Ok(())
        }
    }
}

fn field_ty(ty: Option<&'static Ty>, m: &M, i: usize) -> Option<&'static Ty> {
    match &ty?.k {
        K::Struct(f) | K::TupleStruct(f) | K::Tuple(f) => f.get(i).map(|f| f.ty()),
        K::Enum(vs) => match m {
            M::Enum(n, _) => vs.iter().find(|v| v.name == n).and_then(|v| v.fields.get(i)).map(|f| f.ty()),
            _ => None,
        },
        _ => None,
    }
}

pub fn unknown_names(r: &mut Rng, known: &[(String, M)]) -> Vec<String> {
    let mut out = vec![gen_name(r), "hidden".into(), "s".into(), String::new(), "nope".into()];
    for (n, _) in known {
        out.push(format!("{n}_"));
        out.push(format!("r#{n}"));
        out.push(n.to_uppercase());
        out.push(format!(" {n}"));
        if let Some(s) = n.strip_prefix("r#") {
            out.push(s.to_owned());
        }
        let mut c = n.chars();
        c.next_back();
        out.push(c.as_str().to_owned());
    }
    out.retain(|n| known.iter().all(|k| k.0 != *n));
    out
}

const PAST: [usize; 4] = [0, 1, 7, usize::MAX];

pub fn past(len: usize) -> impl Iterator<Item = usize> {
    PAST.into_iter().map(move |x| if x == usize::MAX { x } else { len + x })
}

macro_rules! for_scalar {
    ($sc:expr, $t:ident, $x:ident => $e:expr, $other:expr) => {
        match $sc {
            Sc::Usize($x) => { type $t = usize; $e }
            Sc::U8($x) => { type $t = u8; $e }
            Sc::U16($x) => { type $t = u16; $e }
            Sc::U32($x) => { type $t = u32; $e }
            Sc::U64($x) => { type $t = u64; $e }
            Sc::U128($x) => { type $t = u128; $e }
            Sc::I8($x) => { type $t = i8; $e }
            Sc::I16($x) => { type $t = i16; $e }
            Sc::I32($x) => { type $t = i32; $e }
            Sc::I64($x) => { type $t = i64; $e }
            Sc::I128($x) => { type $t = i128; $e }
            Sc::Bool($x) => { type $t = bool; $e }
            Sc::Char($x) => { type $t = char; $e }
            Sc::Str($x) => { type $t = String; $e }
            _ => $other,
        }
    };
}

/// Typed access to a scalar field: by the right type, by a wrong one, through all the impls.
fn typed_field_named(o: &mut Obs, r: &dyn Reflect, n: &str, s: &Sc) -> Res {
    macro_rules! on {
        ($x:expr, $what:expr) => {{
            let x = $x;
            for_scalar!(s, T, v => {
                let got: Option<&T> = GetField::get_field::<T>(x, n);
                ensure!(got == Some(v), "{}.get_field({n:?}) gave {got:?}, expected {v:?}", $what);
                o.ev("typed field reads");
            }, {});
            if !matches!(s, Sc::U16(_)) {
                ensure!(GetField::get_field::<u16>(x, n).is_none(), "{}.get_field({n:?}) gave a u16 for a {:?}", $what, s.kind());
            }
        }};
    }
    if let Some(x) = r.as_struct() {
        on!(x, "struct");
    }
    if let Some(x) = r.as_enum() {
        on!(x, "enum");
    }
    Ok(())
}

fn typed_field_at(o: &mut Obs, r: &dyn Reflect, n: usize, s: &Sc) -> Res {
    macro_rules! on {
        ($x:expr, $what:expr) => {{
            let x = $x;
            for_scalar!(s, T, v => {
                let got: Option<&T> = GetField::get_field::<T>(x, n);
                ensure!(got == Some(v), "{}.get_field({n}) gave {got:?}, expected {v:?}", $what);
                o.ev("typed field reads");
            }, {});
            if !matches!(s, Sc::I16(_)) {
                ensure!(GetField::get_field::<i16>(x, n).is_none(), "{}.get_field({n}) gave an i16 for a {:?}", $what, s.kind());
            }
            ensure!(GetField::get_field::<i16>(x, usize::MAX).is_none(), "{}.get_field(MAX) gave something", $what);
        }};
    }
    if let Some(x) = r.as_tuple_struct() {
        on!(x, "tuple struct");
    }
    if let Some(x) = r.as_tuple() {
        on!(x, "tuple");
    }
    if let Some(x) = r.as_enum() {
        on!(x, "enum");
    }
    if let Some(x) = r.as_array() {
        on!(x, "array");
    }
    Ok(())
}

/// Typed access through a dynamic value, shared and mutable.
pub fn typed_on_value(o: &mut Obs, val: &mut Value, m: &M) -> Res {
    let before = read_value(val);
    let mut named: Vec<(String, M)> = vec![];
    let mut pos: Vec<M> = vec![];
    match m {
        M::Struct(v) | M::Enum(_, F::Struct(v)) => named = v.clone(),
        M::TupleStruct(v) | M::Tuple(v) | M::Enum(_, F::Tuple(v)) | M::List(v) => pos = v.clone(),
        M::Map(v) => {
            for (k, x) in v {
                if let M::S(Sc::Str(s)) = k {
                    named.push((s.clone(), x.clone()));
                }
                if let (M::S(Sc::I32(k)), M::S(s)) = (k, x) {
                    for_scalar!(s, T, v => {
                        let got: Option<&T> = GetField::get_field::<T>(&*val, *k);
                        ensure!(got == Some(v), "map value.get_field({k}i32) gave {got:?}, expected {v:?}");
                        o.ev("typed map reads");
                    }, {});
                }
                if let (M::S(Sc::Usize(k)), M::S(s)) = (k, x) {
                    for_scalar!(s, T, v => {
                        let got: Option<&T> = GetField::get_field::<T>(&*val, *k);
                        ensure!(got == Some(v), "map value.get_field({k}usize) gave {got:?}, expected {v:?}");
                        o.ev("typed map reads");
                    }, {});
                }
            }
        }
        _ => {}
    }
    for (n, x) in &named {
        if let M::S(s) = x {
            for_scalar!(s, T, v => {
                let got: Option<&T> = GetField::get_field::<T>(&*val, n.as_str());
                ensure!(got == Some(v), "value.get_field({n:?}) gave {got:?}, expected {v:?}");
                let got: Option<&T> = GetField::get_field::<T>(&*val, n.to_owned());
                ensure!(got == Some(v), "value.get_field(String {n:?}) gave {got:?}, expected {v:?}");
                let got: Option<&mut T> = GetFieldMut::get_field_mut::<T>(&mut *val, n.as_str());
                ensure!(got.as_deref() == Some(v), "value.get_field_mut({n:?}) gave {got:?}, expected {v:?}");
                let got: Option<&mut T> = GetFieldMut::get_field_mut::<T>(&mut *val, n.to_owned());
                ensure!(got.as_deref() == Some(v), "value.get_field_mut(String {n:?}) gave {got:?}, expected {v:?}");
                o.ev("typed field reads");
            }, {});
            if !matches!(s, Sc::U16(_)) {
                ensure!(GetField::get_field::<u16>(&*val, n.as_str()).is_none(), "value.get_field({n:?}) gave a u16 for a {:?}", s.kind());
            }
        }
    }
    for (i, x) in pos.iter().enumerate() {
        if let M::S(s) = x {
            for_scalar!(s, T, v => {
                let got: Option<&T> = GetField::get_field::<T>(&*val, i);
                ensure!(got == Some(v), "value.get_field({i}) gave {got:?}, expected {v:?}");
                let got: Option<&mut T> = GetFieldMut::get_field_mut::<T>(&mut *val, i);
                ensure!(got.as_deref() == Some(v), "value.get_field_mut({i}) gave {got:?}, expected {v:?}");
                o.ev("typed field reads");
            }, {});
        }
    }
    for n in ["nope", "", "\u{0}"] {
        if named.iter().all(|x| x.0 != n) {
            ensure!(GetField::get_field::<Value>(&*val, n).is_none() && GetField::get_field::<i32>(&*val, n).is_none(), "value.get_field({n:?}) gave something");
            ensure!(GetFieldMut::get_field_mut::<i32>(&mut *val, n).is_none(), "value.get_field_mut({n:?}) gave something");
        }
    }
    // keys of every type: positions, names and map keys, whatever the kind of the value
    let at = |k: usize| match m {
        M::Enum(_, F::Struct(v)) => v.get(k).map(|x| &x.1),
        M::Map(v) => v.iter().find(|x| x.0 == M::S(Sc::Usize(k))).map(|x| &x.1),
        _ => pos.get(k),
    };
    for k in [0, 1, pos.len(), named.len(), usize::MAX] {
        let (got, want) = (GetField::get_field::<i32>(&*val, k).copied(), at(k));
        let want = if let Some(M::S(Sc::I32(x))) = want { Some(*x) } else { None };
        ensure!(got == want, "value.get_field({k}) gave {got:?}, expected {want:?} of a {}", kind_of(m));
        let got = GetFieldMut::get_field_mut::<i32>(&mut *val, k).copied();
        ensure!(got == want, "value.get_field_mut({k}) gave {got:?}, expected {want:?} of a {}", kind_of(m));
        let got = GetField::get_field::<i32>(&mut *val, k).copied();
        ensure!(got == want, "value.get_field({k}) on a mutable value gave {got:?}, expected {want:?} of a {}", kind_of(m));
    }
    macro_rules! other_key {
        ($($k:expr => $s:expr),* $(,)?) => {$(
            let want = match m {
                M::Map(v) => v.iter().find(|x| x.0 == M::S($s)).map(|x| &x.1),
                M::Struct(v) | M::Enum(_, F::Struct(v)) => match $s { Sc::Str(n) => v.iter().find(|x| x.0 == n).map(|x| &x.1), _ => None },
                _ => None,
            };
            let want = if let Some(M::S(Sc::I32(x))) = want { Some(*x) } else { None };
            let got = GetField::get_field::<i32>(&*val, $k).copied();
            ensure!(got == want, "value.get_field({}) gave {got:?}, expected {want:?} of a {}", stringify!($k), kind_of(m));
            let got = GetFieldMut::get_field_mut::<i32>(&mut *val, $k).copied();
            ensure!(got == want, "value.get_field_mut({}) gave {got:?}, expected {want:?} of a {}", stringify!($k), kind_of(m));
        )*};
    }
    other_key!(0u8 => Sc::U8(0), true => Sc::Bool(true), 1i32 => Sc::I32(1), 0i64 => Sc::I64(0), 'a' => Sc::Char('a'), "a".to_owned() => Sc::Str("a".to_owned()), String::new() => Sc::Str(String::new()));
    ensure!(GetField::get_field::<i32>(&*val, (1u8, 2u8)).is_none() || matches!(m, M::Map(_)), "value.get_field of a tuple gave something");
    ensure!(GetFieldMut::get_field_mut::<i32>(&mut *val, Some(1u8)).is_none() || matches!(m, M::Map(_)), "value.get_field_mut of an option gave something");
    o.ev("typed reads with keys of every type");
    ensure!(read_value(val) == before, "typed access changed the value");
    Ok(())
}

pub fn read_checks(o: &mut Obs, r: &mut Rng, x: &dyn Reflect, m: &M) -> Res {
    match m {
        M::Struct(v) => {
            let Some(s) = x.as_struct() else { return Err("as_struct gave nothing".into()) };
            ensure!(s.fields_len() == v.len(), "fields_len is {} of {}", s.fields_len(), v.len());
            for (i, (n, f)) in v.iter().enumerate() {
                ensure!(s.name_at(i) == Some(n), "name_at({i}) is {:?}, expected {n:?}", s.name_at(i));
                expect_read(&format!("field_at({i})"), s.field_at(i), f)?;
                expect_read(&format!("field({n:?})"), s.field(n), f)?;
                if let M::S(sc) = f {
                    typed_field_named(o, x, n, sc)?;
                }
                o.ev("fields read");
            }
            let all = read_struct(s)?;
            let want: Vec<_> = v.iter().map(|(n, f)| (n.clone(), f.shown())).collect();
            ensure!(all == want, "iteration: {}", diff(&M::Struct(want), &M::Struct(all)));
            for n in unknown_names(r, v) {
                ensure!(s.field(&n).is_none(), "field({n:?}) exists");
                o.ev("absent names probed");
            }
            for i in past(v.len()) {
                ensure!(s.field_at(i).is_none() && s.name_at(i).is_none(), "field {i} of {} exists", v.len());
            }
        }
        M::TupleStruct(v) => {
            let Some(s) = x.as_tuple_struct() else { return Err("as_tuple_struct gave nothing".into()) };
            ensure!(s.fields_len() == v.len(), "fields_len is {} of {}", s.fields_len(), v.len());
            for (i, f) in v.iter().enumerate() {
                expect_read(&format!("field_at({i})"), s.field_at(i), f)?;
                if let M::S(sc) = f {
                    typed_field_at(o, x, i, sc)?;
                }
                o.ev("fields read");
            }
            let all = read_tuple_struct(s)?;
            let want: Vec<_> = v.iter().map(|f| f.shown()).collect();
            ensure!(all == want, "iteration: {}", diff(&M::TupleStruct(want), &M::TupleStruct(all)));
            for i in past(v.len()) {
                ensure!(s.field_at(i).is_none(), "field {i} of {} exists", v.len());
            }
        }
        M::Tuple(v) => {
            let Some(s) = x.as_tuple() else { return Err("as_tuple gave nothing".into()) };
            ensure!(s.fields_len() == v.len(), "fields_len is {} of {}", s.fields_len(), v.len());
            for (i, f) in v.iter().enumerate() {
                expect_read(&format!("field_at({i})"), s.field_at(i), f)?;
                if let M::S(sc) = f {
                    typed_field_at(o, x, i, sc)?;
                }
                o.ev("fields read");
            }
            let all = read_tuple(s)?;
            let want: Vec<_> = v.iter().map(|f| f.shown()).collect();
            ensure!(all == want, "iteration: {}", diff(&M::Tuple(want), &M::Tuple(all)));
            for i in past(v.len()) {
                ensure!(s.field_at(i).is_none(), "field {i} of {} exists", v.len());
            }
        }
        M::Enum(n, f) => {
            let Some(s) = x.as_enum() else { return Err("as_enum gave nothing".into()) };
            ensure!(s.variant_name() == n, "variant_name is {:?}, expected {n:?}", s.variant_name());
            let (kind, len) = match f {
                F::Unit => (VariantKind::Unit, 0),
                F::Tuple(v) => (VariantKind::Tuple, v.len()),
                F::Struct(v) => (VariantKind::Struct, v.len()),
            };
            ensure!(s.variant_kind() == kind, "variant_kind is {:?}, expected {kind:?}", s.variant_kind());
            ensure!(s.fields_len() == len, "fields_len is {} of {len}", s.fields_len());
            let (_, all) = read_enum(s)?;
            let want = match f {
                F::Unit => F::Unit,
                F::Tuple(v) => F::Tuple(v.iter().map(|x| x.shown()).collect()),
                F::Struct(v) => F::Struct(v.iter().map(|(n, x)| (n.clone(), x.shown())).collect()),
            };
            ensure!(all == want, "iteration: {}", diff(&M::Enum(n.clone(), want), &M::Enum(n.clone(), all)));
            match f {
                F::Unit => {}
                F::Tuple(v) => {
                    for (i, f) in v.iter().enumerate() {
                        expect_read(&format!("field_at({i})"), s.field_at(i), f)?;
                        // whatever it says the name is has to lead there
                        if let Some(n) = s.name_at(i) {
                            ensure!(s.field(n).is_some(), "name_at({i}) of a tuple variant is {n:?} and there is no such field");
                        }
                        if let M::S(sc) = f {
                            typed_field_at(o, x, i, sc)?;
                        }
                        o.ev("fields read");
                    }
                }
                F::Struct(v) => {
                    for (i, (n, f)) in v.iter().enumerate() {
                        ensure!(s.name_at(i) == Some(n), "name_at({i}) is {:?}, expected {n:?}", s.name_at(i));
                        expect_read(&format!("field_at({i})"), s.field_at(i), f)?;
                        expect_read(&format!("field({n:?})"), s.field(n), f)?;
                        if let M::S(sc) = f {
                            typed_field_named(o, x, n, sc)?;
                        }
                        o.ev("fields read");
                    }
                }
            }
            let known: &[(String, M)] = match f {
                F::Struct(v) => v,
                _ => &[],
            };
            for n in unknown_names(r, known) {
                ensure!(s.field(&n).is_none(), "field({n:?}) exists");
                o.ev("absent names probed");
            }
            for i in past(len) {
                ensure!(s.field_at(i).is_none(), "field {i} of {len} exists");
                ensure!(s.name_at(i).is_none(), "name {i} of {len} exists");
            }
        }
        _ => {}
    }
    Ok(())
}

/// Names of the fields of the other variants of a typed enum.
pub fn other_variant_names(ty: Option<&'static Ty>, m: &M) -> Vec<String> {
    let mut out = vec![];
    if let (Some(K::Enum(vs)), M::Enum(n, f)) = (ty.map(|t| &t.k), m) {
        for v in vs {
            if v.name != n {
                for x in &v.fields {
                    if let Some(x) = x.name {
                        if !matches!(f, F::Struct(v) if v.iter().any(|y| y.0 == x)) {
                            out.push(x.to_owned());
                        }
                    }
                }
            }
        }
    }
    out
}

/// The mutable way to field `i` chosen by `way`.
fn field_mut<'a>(x: &'a mut dyn Reflect, m: &M, i: usize, way: usize) -> Result<Option<&'a mut dyn Reflect>, String> {
    match m {
        M::Struct(v) => {
            let Some(s) = x.as_struct_mut() else { return Err("as_struct_mut gave nothing".into()) };
            Ok(match way {
                0 => s.field_mut(&v[i].0),
                1 => s.field_at_mut(i),
                _ => {
                    let mut it = s.fields_mut();
                    match it.nth(i) {
                        Some((n, x)) => {
                            ensure!(n == v[i].0, "fields_mut gives name {n:?} at {i}, expected {:?}", v[i].0);
                            Some(x)
                        }
                        None => None,
                    }
                }
            })
        }
        M::TupleStruct(_) => {
            let Some(s) = x.as_tuple_struct_mut() else { return Err("as_tuple_struct_mut gave nothing".into()) };
            Ok(if way < 2 { s.field_at_mut(i) } else { s.fields_mut().nth(i) })
        }
        M::Tuple(_) => {
            let Some(s) = x.as_tuple_mut() else { return Err("as_tuple_mut gave nothing".into()) };
            Ok(if way < 2 { s.field_at_mut(i) } else { s.fields_mut().nth(i) })
        }
        M::Enum(_, f) => {
            let Some(s) = x.as_enum_mut() else { return Err("as_enum_mut gave nothing".into()) };
            Ok(match (way, f) {
                (0, F::Struct(v)) => s.field_mut(&v[i].0),
                (0 | 1, _) => s.field_at_mut(i),
                _ => match (s.fields_mut().nth(i), f) {
                    (None, _) => None,
                    (Some(VariantFieldMut::Struct(n, x)), F::Struct(v)) => {
                        ensure!(n == v[i].0, "fields_mut gives name {n:?} at {i}, expected {:?}", v[i].0);
                        Some(x)
                    }
                    (Some(VariantFieldMut::Tuple(x)), F::Tuple(_)) => Some(x),
                    _ => return Err("fields_mut yields the other kind of field".into()),
                },
            })
        }
        _ => Ok(None),
    }
}

fn fields_mut_len(x: &mut dyn Reflect) -> Option<usize> {
    match x.reflect_mut() {
        ReflectMut::Struct(s) => Some(s.fields_mut().count()),
        ReflectMut::TupleStruct(s) => Some(s.fields_mut().count()),
        ReflectMut::Tuple(s) => Some(s.fields_mut().count()),
        ReflectMut::Enum(s) => Some(s.fields_mut().count()),
        _ => None,
    }
}

pub fn absent_mut(r: &mut Rng, x: &mut dyn Reflect, m: &M, others: &[String]) -> Res {
    let n = m.children().len();
    let names: Vec<String> = match m {
        M::Struct(v) | M::Enum(_, F::Struct(v)) => unknown_names(r, v),
        _ => unknown_names(r, &[]),
    };
    match x.reflect_mut() {
        ReflectMut::Struct(s) => {
            for k in &names {
                ensure!(s.field_mut(k).is_none(), "field_mut({k:?}) exists");
            }
            for i in past(n) {
                ensure!(s.field_at_mut(i).is_none(), "field_at_mut({i}) of {n} exists");
            }
        }
        ReflectMut::TupleStruct(s) => {
            for i in past(n) {
                ensure!(s.field_at_mut(i).is_none(), "field_at_mut({i}) of {n} exists");
            }
        }
        ReflectMut::Tuple(s) => {
            for i in past(n) {
                ensure!(s.field_at_mut(i).is_none(), "field_at_mut({i}) of {n} exists");
            }
        }
        ReflectMut::Enum(s) => {
            for k in names.iter().chain(others) {
                ensure!(s.field_mut(k).is_none(), "field_mut({k:?}) exists");
            }
            for i in past(n) {
                ensure!(s.field_at_mut(i).is_none(), "field_at_mut({i}) of {n} exists");
            }
        }
        _ => {}
    }
    Ok(())
}

fn with_field(m: &M, i: usize, new: M) -> M {
    let mut m = m.clone();
    match &mut m {
        M::Struct(v) | M::Enum(_, F::Struct(v)) => v[i].1 = new,
        M::TupleStruct(v) | M::Tuple(v) | M::Enum(_, F::Tuple(v)) | M::List(v) | M::Array(v) => v[i] = new,
        _ => {}
    }
    m
}

pub fn c04(cfg: &Cfg, reg: &Registry) -> Obs {
    each_type(cfg, reg, cfg.n(400, 12000), |o, r, ty| {
        let (mut s, ty, mut m) = gen_subj(r, ty);
        let fields = match &m {
            M::Struct(v) | M::Enum(_, F::Struct(v)) => v.len(),
            M::TupleStruct(v) | M::Tuple(v) | M::Enum(_, F::Tuple(v)) => v.len(),
            M::Enum(_, F::Unit) => 0,
            M::S(_) | M::List(_) | M::Map(_) if ty.is_none() => {
                if let Subj::D(v) = &mut s {
                    typed_on_value(o, v, &m)?;
                }
                return Ok(());
            }
            M::List(v) | M::Array(v) => {
                for (i, f) in v.iter().enumerate().take(4) {
                    if let M::S(sc) = f {
                        typed_field_at(o, s.r(), i, sc)?;
                    }
                }
                return Ok(());
            }
            _ => return Ok(()),
        };
        let name = ty.map_or("dynamic", |t| t.name);
        o.note(|| format!("type {name} value {}", short(&m)));
        o.seen(&(name, &m));
        read_checks(o, r, s.r(), &m)?;
        if let Subj::D(v) = &mut s {
            typed_on_value(o, v, &m)?;
        }
        let others = other_variant_names(ty, &m);
        if let Some(e) = s.r().as_enum() {
            for n in &others {
                ensure!(e.field(n).is_none(), "field({n:?}) of another variant exists");
                o.ev("fields of other variants probed");
            }
            if let Some(K::Enum(vs)) = ty.map(|t| &t.k) {
                let n = e.variants_len();
                ensure!(n >= vs.len(), "variants_len is {n} of {}", vs.len());
            }
        }
        ensure!(fields_mut_len(s.r_mut()) == Some(fields), "mutable iteration does not visit all fields once");
        absent_mut(r, s.r_mut(), &m, &others)?;
        let sk = s.skips();
        for i in 0..fields {
            let way = r.below(3);
            let fty = field_ty(ty, &m, i);
            let old = m.children()[i].clone();
            let Some((patch, want)) = gen_write(r, fty, &old) else { continue };
            match field_mut(s.r_mut(), &m, i, way)? {
                None => return Err(format!("mutable access {way} to field {i} gave nothing")),
                Some(x) => {
                    let now = read(x)?;
                    ensure!(now == old.shown(), "mutable access {way} to field {i}: {}", diff(&old.shown(), &now));
                    x.patch(&patch);
                }
            }
            let want = with_field(&m, i, want);
            let got = s.model();
            ensure!(got == want, "write to field {i} by way {way}: {}", diff(&want, &got));
            ensure!(s.skips() == sk, "write to field {i} changed an excluded field");
            let seen = read(s.r())?;
            ensure!(seen == want.shown(), "after write to field {i}, views: {}", diff(&want.shown(), &seen));
            if want != m {
                o.ev("fields written");
            }
            m = want;
        }
        o.sample(|| format!("{name}: {fields} fields of {} read, probed and written", short(&m)));
        Ok(())
    })
}

/// Accesses one key the long way, through the views.
fn step<'a>(x: &'a dyn Reflect, k: &PK) -> Option<&'a dyn Reflect> {
    match (k, x.reflect_ref()) {
        (PK::Name(n), ReflectRef::Struct(s)) => s.field(n),
        (PK::Name(n), ReflectRef::Enum(s)) if s.variant_kind() == VariantKind::Struct => s.field(n),
        (PK::Num(i), ReflectRef::TupleStruct(s)) => s.field_at(*i),
        (PK::Num(i), ReflectRef::Tuple(s)) => s.field_at(*i),
        (PK::Num(i), ReflectRef::Enum(s)) if s.variant_kind() == VariantKind::Tuple => s.field_at(*i),
        (PK::Get(M::S(s)), ReflectRef::Array(a)) => a.get(s.as_index()?),
        (PK::Get(M::S(s)), ReflectRef::List(a)) => a.get(s.as_index()?),
        (PK::Get(m), ReflectRef::Map(a)) => a.get(&m.dynamic()),
        (PK::Variant(n), ReflectRef::Enum(s)) if s.variant_name() == n => Some(x),
        _ => None,
    }
}

pub fn c05(cfg: &Cfg, reg: &Registry) -> Obs {
    each_type(cfg, reg, cfg.n(600, 20000), |o, r, ty| {
        let (mut s, ty, m) = gen_subj(r, ty);
        let name = ty.map_or("dynamic", |t| t.name);
        let mut m = m;
        for round in 0..4 {
            let good = gen_path(r, &m, false, 8);
            let p = if round % 2 == 0 { good } else { break_path(r, &good) };
            o.note(|| format!("type {name} value {} path {}", short(&m), show_path(&p)));
            o.seen(&(name, &m, &p));
            let kp = key_path(&p);
            let Ok(want) = oracle::nav(ty, &m, &p) else {
                o.ev("outcome not documented");
                let _ = s.r().at(&kp);
                continue;
            };
            // step by step
            let mut cur = Some(s.r());
            for k in &p {
                cur = cur.and_then(|x| step(x, k));
            }
            let got = s.r().at(&kp);
            match (want, got) {
                (None, None) => {
                    o.ev("absent paths");
                    ensure!(cur.is_none(), "step by step access finds something");
                    ensure!(s.r_mut().at_mut(&kp).is_none(), "at_mut finds what at does not");
                    ensure!(s.r().get_at::<i32>(&kp).is_none(), "get_at finds what at does not");
                    let now = s.model();
                    ensure!(now == m, "a failed access changed the value: {}", diff(&m, &now));
                }
                (None, Some(x)) => return Err(format!("at found {}, expected nothing", short(&read_s(x)))),
                (Some((_, part)), None) => return Err(format!("at found nothing, expected {}", short(part))),
                (Some((pty, part)), Some(x)) => {
                    o.ev("present paths");
                    o.evn("keys followed", p.len() as u64);
                    expect_read("at", Some(x), part)?;
                    expect_read("step by step access", cur, part)?;
                    if let Some(t) = pty {
                        if !matches!(t.k, K::Any) {
                            match (t.native)(x.as_any()) {
                                Some(n) => ensure!(n == *part, "natively: {}", diff(part, &n)),
                                None => return Err(format!("the part is not a {}", t.name)),
                            }
                        }
                    }
                    if let M::S(sc) = part {
                        for_scalar!(sc, T, v => {
                            let got = s.r().get_at::<T>(&kp);
                            ensure!(got == Some(v), "get_at gave {got:?}, expected {v:?}");
                            let got = s.r_mut().get_at_mut::<T>(&kp);
                            ensure!(got.as_deref() == Some(v), "get_at_mut gave {got:?}, expected {v:?}");
                        }, {});
                        if sc.kind() != SK::U16 {
                            ensure!(s.r().get_at::<u16>(&kp).is_none(), "get_at of the wrong type gave something");
                            ensure!(s.r_mut().get_at_mut::<u16>(&kp).is_none(), "get_at_mut of the wrong type gave something");
                        }
                    }
                    let write = gen_write(r, pty, part);
                    let after = write.as_ref().map(|w| oracle::replace_part(&m, part, &w.1));
                    let part = part.clone();
                    match s.r_mut().at_mut(&kp) {
                        None => return Err("at_mut found nothing where at did".into()),
                        Some(x) => {
                            let now = read(x)?;
                            ensure!(now == part.shown(), "at_mut: {}", diff(&part.shown(), &now));
                            if let Some((patch, _)) = &write {
                                x.patch(patch);
                            }
                        }
                    }
                    if let Some(after) = after {
                        let now = s.model();
                        ensure!(now == after, "after a write through the path: {}", diff(&after, &now));
                        if after != m {
                            o.ev("parts written");
                        }
                        m = after;
                    }
                }
            }
        }
        o.sample(|| format!("{name}: paths over {}", short(&m)));
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------------
// collections

pub fn gen_elem(r: &mut Rng, reg: &Registry, ty: Option<&'static Ty>, like: Option<&M>) -> (Box<dyn Reflect>, M) {
    match (ty, like) {
        (_, Some(m)) if r.chance(1, 2) => {
            // something already there, so that keys meet
            (Box::new(m.erased().dynamic()), m.erased())
        }
        (Some(t), _) => {
            if r.chance(3, 5) {
                let (v, m) = gen_value(r, t);
                if r.chance(1, 2) {
                    (v.into_reflect(), m)
                } else {
                    (Box::new(m.erased().dynamic()), m.erased())
                }
            } else {
                let (s, m, _, _) = gen_source(r, reg, t);
                (s, m)
            }
        }
        (None, _) => {
            let m = gen_m(r, 2);
            (Box::new(m.dynamic()), m)
        }
    }
}

pub fn conv(ty: Option<&'static Ty>, m: &M) -> Conv {
    match ty {
        Some(t) => oracle::convert(t, m),
        None => Conv::Ok(m.erased()),
    }
}

pub fn same_key(ty: Option<&'static Ty>, a: &M, b: &M) -> bool {
    match ty {
        Some(_) => a.canon() == b.canon(),
        None => a.as_key() == b.as_key(),
    }
}

/// Keys with parts that compare equal although they differ are looked up in an unspecified way.
fn list_ops(o: &mut Obs, r: &mut Rng, reg: &Registry, s: &mut Subj, ety: Option<&'static Ty>, m: &mut M, n: usize) -> Res {
    for _ in 0..n {
        let is_list = matches!(m, M::List(_));
        let (M::List(v) | M::Array(v)) = &mut *m else { return Ok(()) };
        let len = v.len();
        let i = match r.below(6) {
            0 => len,
            1 => *r.pick(&[usize::MAX, len + 1, len.saturating_sub(1)]),
            _ => r.below(len.max(1)),
        };
        let op = if is_list { r.below(10) } else { 4 + r.below(6) };
        match op {
            0 | 1 => {
                let like = v.first().cloned();
                let (src, sm) = gen_elem(r, reg, ety, like.as_ref());
                let want = conv(ety, &sm);
                if want == Conv::Unspec {
                    continue;
                }
                o.note(|| format!("push {}", short(&sm)));
                let Some(l) = s.r_mut().as_list_mut() else { return Err("as_list_mut gave nothing".into()) };
                l.push(&*src);
                match want {
                    Conv::Ok(x) => {
                        v.push(x);
                        o.ev("pushed");
                    }
                    _ => o.ev("push of misfit ignored"),
                }
            }
            2 => {
                o.note(|| "pop".into());
                let Some(l) = s.r_mut().as_list_mut() else { return Err("as_list_mut gave nothing".into()) };
                let got = l.pop();
                let want = v.pop();
                o.ev("popped");
                match (got, want) {
                    (None, None) => {}
                    (Some(g), Some(w)) => expect_read("pop", Some(&*g), &w)?,
                    (g, w) => return Err(format!("pop gave {:?}, expected {w:?}", g.map(|g| read_s(&*g)))),
                }
            }
            3 => {
                o.note(|| format!("try_remove {i}"));
                let Some(l) = s.r_mut().as_list_mut() else { return Err("as_list_mut gave nothing".into()) };
                let got = l.try_remove(i);
                let want = if i < len { Some(v.remove(i)) } else { None };
                o.ev(if want.is_some() { "removed" } else { "remove past the end ignored" });
                match (got, want) {
                    (None, None) => {}
                    (Some(g), Some(w)) => expect_read("try_remove", Some(&*g), &w)?,
                    (g, w) => return Err(format!("try_remove({i}) gave {:?}, expected {w:?}", g.map(|g| read_s(&*g)))),
                }
            }
            4 | 5 => {
                let want = v.get(i);
                let got = match s.r().reflect_ref() {
                    ReflectRef::List(l) => l.get(i),
                    ReflectRef::Array(l) => l.get(i),
                    _ => return Err("not a list or array".into()),
                };
                o.ev("got");
                match (got, want) {
                    (None, None) => {}
                    (Some(g), Some(w)) => expect_read("get", Some(g), w)?,
                    (g, w) => return Err(format!("get({i}) gave {:?}, expected {w:?}", g.map(read_s))),
                }
            }
            6 | 7 | 8 => {
                let by_iter = op == 8;
                let Some(old) = v.get(i).cloned() else {
                    let none = match s.r_mut().reflect_mut() {
                        ReflectMut::List(l) => l.get_mut(i).is_none(),
                        ReflectMut::Array(l) => l.get_mut(i).is_none(),
                        _ => return Err("not a list or array".into()),
                    };
                    ensure!(none, "get_mut({i}) of {len} exists");
                    o.ev("absent index probed");
                    continue;
                };
                let Some((patch, want)) = gen_write(r, ety, &old) else { continue };
                o.note(|| format!("write at {i} (by iteration: {by_iter})"));
                let x = match (s.r_mut().reflect_mut(), by_iter) {
                    (ReflectMut::List(l), false) => l.get_mut(i),
                    (ReflectMut::List(l), true) => l.iter_mut().nth(i),
                    (ReflectMut::Array(l), false) => l.get_mut(i),
                    (ReflectMut::Array(l), true) => l.iter_mut().nth(i),
                    _ => return Err("not a list or array".into()),
                };
                match x {
                    None => return Err(format!("mutable access at {i} of {len} gave nothing")),
                    Some(x) => {
                        let now = read(x)?;
                        ensure!(now == old.shown(), "mutable access at {i}: {}", diff(&old.shown(), &now));
                        x.patch(&patch);
                    }
                }
                v[i] = want;
                o.ev("elements written");
            }
            _ => {
                let (a, b, c, it) = match s.r().reflect_ref() {
                    ReflectRef::List(l) => (l.len(), l.is_empty(), l.iter().count(), l.iter().len()),
                    ReflectRef::Array(l) => (l.len(), l.is_empty(), l.iter().count(), l.iter().len()),
                    _ => return Err("not a list or array".into()),
                };
                ensure!(a == len && b == (len == 0) && c == len && it == len, "len {a} is_empty {b} iterated {c} iterator length {it}, expected {len}");
                let c = match s.r_mut().reflect_mut() {
                    ReflectMut::List(l) => l.iter_mut().count(),
                    ReflectMut::Array(l) => l.iter_mut().count(),
                    _ => return Err("not a list or array".into()),
                };
                ensure!(c == len, "mutable iteration visits {c} of {len}");
                o.ev("lengths checked");
            }
        }
        let now = s.model();
        ensure!(now == *m, "state: {}", diff(m, &now));
    }
    let seen = read(s.r())?;
    ensure!(seen == m.shown(), "views: {}", diff(&m.shown(), &seen));
    Ok(())
}

fn map_ops(o: &mut Obs, r: &mut Rng, reg: &Registry, s: &mut Subj, kty: Option<&'static Ty>, vty: Option<&'static Ty>, m: &mut M, n: usize) -> Res {
    for _ in 0..n {
        let M::Map(v) = &mut *m else { return Ok(()) };
        let like = if v.is_empty() { None } else { Some(r.pick(v).0.clone()) };
        let (k, km) = gen_elem(r, reg, kty, like.as_ref());
        let kc = conv(kty, &km);
        if kc == Conv::Unspec {
            continue;
        }
        let at = match &kc {
            Conv::Ok(c) => v.iter().position(|e| same_key(kty, &e.0, c)),
            _ => None,
        };
        match r.below(9) {
            0..=2 => {
                let (x, xm) = gen_elem(r, reg, vty, None);
                let xc = conv(vty, &xm);
                if xc == Conv::Unspec {
                    continue;
                }
                o.note(|| format!("insert {} -> {}", short(&km), short(&xm)));
                let Some(map) = s.r_mut().as_map_mut() else { return Err("as_map_mut gave nothing".into()) };
                let got = map.insert(&*k, &*x);
                let want = match (kc, xc, at) {
                    (Conv::Ok(_), Conv::Ok(x), Some(i)) => {
                        o.ev("entry replaced");
                        Some(std::mem::replace(&mut v[i].1, x))
                    }
                    (Conv::Ok(k), Conv::Ok(x), None) => {
                        o.ev("entry added");
                        v.push((k, x));
                        None
                    }
                    _ => {
                        o.ev("misfit entry ignored");
                        None
                    }
                };
                match (got, want) {
                    (None, None) => {}
                    (Some(g), Some(w)) => expect_read("insert's previous value", Some(&*g), &w)?,
                    (g, w) => return Err(format!("insert gave {:?}, expected {w:?}", g.map(|g| read_s(&*g)))),
                }
            }
            3 => {
                o.note(|| format!("remove {}", short(&km)));
                let Some(map) = s.r_mut().as_map_mut() else { return Err("as_map_mut gave nothing".into()) };
                let got = map.remove(&*k);
                let want = at.map(|i| v.remove(i).1);
                o.ev(if want.is_some() { "entry removed" } else { "absent key not removed" });
                match (got, want) {
                    (None, None) => {}
                    (Some(g), Some(w)) => expect_read("remove", Some(&*g), &w)?,
                    (g, w) => return Err(format!("remove gave {:?}, expected {w:?}", g.map(|g| read_s(&*g)))),
                }
            }
            4 | 5 => {
                o.note(|| format!("get {}", short(&km)));
                let Some(map) = s.r().as_map() else { return Err("as_map gave nothing".into()) };
                match (map.get(&*k), at) {
                    (None, None) => o.ev("absent key got nothing"),
                    (Some(g), Some(i)) => {
                        expect_read("get", Some(g), &v[i].1)?;
                        o.ev("entry got");
                    }
                    (g, i) => return Err(format!("get gave {:?}, expected {:?}", g.map(read_s), i.map(|i| &v[i].1))),
                }
            }
            6 | 7 => {
                let by_iter = r.chance(1, 3);
                let Some(i) = at else {
                    let Some(map) = s.r_mut().as_map_mut() else { return Err("as_map_mut gave nothing".into()) };
                    ensure!(map.get_mut(&*k).is_none(), "get_mut of the absent key {} gave something", short(&km));
                    o.ev("absent key got nothing");
                    continue;
                };
                let old = v[i].1.clone();
                let Some((patch, want)) = gen_write(r, vty, &old) else { continue };
                o.note(|| format!("write at {} (by iteration: {by_iter})", short(&km)));
                let key = v[i].0.shown();
                let Some(map) = s.r_mut().as_map_mut() else { return Err("as_map_mut gave nothing".into()) };
                let x = if by_iter {
                    let mut found = None;
                    for (k, x) in map.iter_mut() {
                        if read(k)? == key {
                            found = Some(x);
                        }
                    }
                    found
                } else {
                    map.get_mut(&*k)
                };
                match x {
                    None => return Err(format!("mutable access at {} gave nothing", short(&km))),
                    Some(x) => {
                        let now = read(x)?;
                        ensure!(now == old.shown(), "mutable access: {}", diff(&old.shown(), &now));
                        x.patch(&patch);
                    }
                }
                v[i].1 = want;
                o.ev("entries written");
            }
            _ => {
                let Some(map) = s.r().as_map() else { return Err("as_map gave nothing".into()) };
                let (a, b, c) = (map.len(), map.is_empty(), map.iter().count());
                ensure!(a == v.len() && b == v.is_empty() && c == v.len(), "len {a} is_empty {b} iterated {c}, expected {}", v.len());
                if kty.map_or(false, |t| matches!(t.k, K::Scalar(_))) {
                    let ks: Vec<M> = map.iter().map(|(k, _)| read_s(k)).collect();
                    let mut sorted = ks.clone();
                    sorted.sort();
                    ensure!(ks == sorted, "iteration is not in key order: {ks:?}");
                    let Some(map) = s.r_mut().as_map_mut() else { return Err("as_map_mut gave nothing".into()) };
                    let ks: Vec<M> = map.iter_mut().map(|(k, _)| read_s(k)).collect();
                    ensure!(ks == sorted, "mutable iteration is not in key order: {ks:?}");
                }
                o.ev("lengths checked");
            }
        }
        let want = M::map(std::mem::take(v));
        let now = s.model();
        ensure!(now == want, "state: {}", diff(&want, &now));
        *m = want;
    }
    let seen = read(s.r())?;
    ensure!(seen == m.shown(), "views: {}", diff(&m.shown(), &seen));
    Ok(())
}

pub fn c12(cfg: &Cfg, reg: &Registry) -> Obs {
    let colls: Registry = reg.iter().filter(|(_, t)| matches!(t().k, K::List(_) | K::Array(..) | K::Map(..))).cloned().collect();
    let all = reg.clone();
    each_type(cfg, &colls, cfg.n(500, 8000), move |o, r, ty| {
        let (mut s, sty, mut m) = gen_subj(r, ty);
        let start = m.clone();
        let n = if r.chance(1, 60) { 200 + r.below(200) } else { 4 + r.below(24) };
        o.seen(&(ty.name, &m, r.u64()));
        let res = match (&ty.k, sty) {
            (K::List(e) | K::Array(e, _), Some(_)) => list_ops(o, r, &all, &mut s, Some(e()), &mut m, n),
            (K::List(_) | K::Array(..), None) => list_ops(o, r, &all, &mut s, None, &mut m, n),
            (K::Map(k, v), Some(_)) => map_ops(o, r, &all, &mut s, Some(k()), Some(v()), &mut m, n),
            _ => map_ops(o, r, &all, &mut s, None, None, &mut m, n),
        };
        o.ev("histories");
        o.sample(|| format!("{} ({}): {n} operations from {} to {}", ty.name, if sty.is_some() { "typed" } else { "dynamic" }, short(&start), short(&m)));
        res.map_err(|e| format!("type {} ({}) from {}: {e}", ty.name, if sty.is_some() { "typed" } else { "dynamic" }, short(&start)))
    })
}

// ---------------------------------------------------------------------------------------------
// visiting

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Leaf {
    S(Sc),
    Opaque(String, M),
}

struct Rec {
    events: Vec<Leaf>,
    fail_at: usize,
}

impl Rec {
    fn hit(&mut self, l: Leaf) -> Result<(), usize> {
        self.events.push(l);
        if self.events.len() > self.fail_at {
            Err(self.events.len())
        } else {
            Ok(())
        }
    }
}

macro_rules! visit {
    ($($f:ident $t:ty, $k:ident;)*) => {$(
        fn $f(&mut self, value: $t) -> Result<(), usize> { self.hit(Leaf::S(Sc::$k(value))) }
    )*};
}

impl TryVisit for Rec {
    type Error = usize;
    visit! {
        try_visit_usize usize, Usize;
        try_visit_u8 u8, U8;
        try_visit_u16 u16, U16;
        try_visit_u32 u32, U32;
        try_visit_u64 u64, U64;
        try_visit_u128 u128, U128;
        try_visit_i8 i8, I8;
        try_visit_i16 i16, I16;
        try_visit_i32 i32, I32;
        try_visit_i64 i64, I64;
        try_visit_i128 i128, I128;
        try_visit_bool bool, Bool;
        try_visit_char char, Char;
    }
    fn try_visit_f32(&mut self, value: f32) -> Result<(), usize> {
        self.hit(Leaf::S(Sc::F32(value.to_bits())))
    }
    fn try_visit_f64(&mut self, value: f64) -> Result<(), usize> {
        self.hit(Leaf::S(Sc::F64(value.to_bits())))
    }
    fn try_visit_string(&mut self, value: &String) -> Result<(), usize> {
        self.hit(Leaf::S(Sc::Str(value.clone())))
    }
    fn try_visit_opaque(&mut self, value: &dyn Reflect, ty: OpaqueType<'_>) -> Result<(), usize> {
        self.hit(Leaf::Opaque(ty.type_name().to_owned(), read_s(value)))
    }
}

struct Uninterested;
impl TryVisit for Uninterested {
    type Error = std::convert::Infallible;
}

#[derive(Debug, PartialEq)]
enum Never {
    Stop,
}
/// Interested in numbers of two types only.
struct Some8 {
    events: Vec<u64>,
    stop: Option<usize>,
}
impl Some8 {
    fn of(l: &Leaf) -> Option<u64> {
        match l {
            Leaf::S(Sc::U8(x)) => Some(u64::from(*x)),
            Leaf::S(Sc::I32(x)) => Some(1000 + u64::from(*x as u32)),
            _ => None,
        }
    }
    fn hit(&mut self, x: u64) -> Result<(), Never> {
        self.events.push(x);
        if self.stop == Some(self.events.len() - 1) {
            Err(Never::Stop)
        } else {
            Ok(())
        }
    }
}
impl TryVisit for Some8 {
    type Error = Never;
    fn try_visit_u8(&mut self, x: u8) -> Result<(), Never> {
        self.hit(u64::from(x))
    }
    fn try_visit_i32(&mut self, x: i32) -> Result<(), Never> {
        self.hit(1000 + u64::from(x as u32))
    }
}

/// The leaves as a visitor meets them.
pub fn visited(x: &dyn Reflect) -> String {
    let mut v = Rec { events: vec![], fail_at: usize::MAX };
    let d = x.type_descriptor();
    let res = try_visit(&mut v, x, d.get_type());
    format!("{res:?} {:?}", v.events)
}

/// `m` with named fields in alphabetical order, outside of keys.
fn sorted_fields(m: &M) -> M {
    let many = |v: &Vec<M>| v.iter().map(sorted_fields).collect::<Vec<_>>();
    let named = |v: &Vec<(String, M)>| {
        let mut v: Vec<_> = v.iter().map(|(n, x)| (n.clone(), sorted_fields(x))).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    };
    match m {
        M::S(_) | M::Via(..) | M::Opaque(..) | M::Enum(_, F::Unit) => m.clone(),
        M::TupleStruct(v) => M::TupleStruct(many(v)),
        M::Tuple(v) => M::Tuple(many(v)),
        M::List(v) => M::List(many(v)),
        M::Array(v) => M::Array(many(v)),
        M::Enum(n, F::Tuple(v)) => M::Enum(n.clone(), F::Tuple(many(v))),
        M::Struct(v) => M::Struct(named(v)),
        M::Enum(n, F::Struct(v)) => M::Enum(n.clone(), F::Struct(named(v))),
        M::Map(v) => M::map(v.iter().map(|(k, x)| (k.clone(), sorted_fields(x))).collect()),
    }
}

/// The leaves of `m` in declaration order; map entries in the order `x` lists them.
fn leaves(ty: &'static Ty, m: &M, x: &dyn Reflect, out: &mut Vec<Leaf>) -> Res {
    match (&ty.k, m) {
        (K::Scalar(_), M::S(s)) => out.push(Leaf::S(s.clone())),
        (K::Via(..) | K::Any | K::Opaque(_), m) => out.push(Leaf::Opaque(ty.name.to_owned(), m.shown())),
        (K::Struct(fs), M::Struct(v)) => {
            for (i, (f, (n, c))) in fs.iter().zip(v).enumerate() {
                let s = x.as_struct().and_then(|s| s.field(n)).ok_or(format!("field {i} gone"))?;
                leaves(f.ty(), c, s, out)?;
            }
        }
        (K::TupleStruct(fs), M::TupleStruct(v)) => {
            for (i, (f, c)) in fs.iter().zip(v).enumerate() {
                let s = x.as_tuple_struct().and_then(|s| s.field_at(i)).ok_or(format!("field {i} gone"))?;
                leaves(f.ty(), c, s, out)?;
            }
        }
        (K::Tuple(fs), M::Tuple(v)) => {
            for (i, (f, c)) in fs.iter().zip(v).enumerate() {
                let s = x.as_tuple().and_then(|s| s.field_at(i)).ok_or(format!("field {i} gone"))?;
                leaves(f.ty(), c, s, out)?;
            }
        }
        (K::Enum(vs), M::Enum(n, f)) => {
            let v = vs.iter().find(|v| v.name == n).ok_or("variant gone")?;
            let children: Vec<&M> = match f {
                F::Unit => vec![],
                F::Tuple(v) => v.iter().collect(),
                F::Struct(v) => v.iter().map(|x| &x.1).collect(),
            };
            for (i, (f, c)) in v.fields.iter().zip(children).enumerate() {
                let e = x.as_enum().ok_or("not an enum")?;
                let s = if v.kind == VK::Struct { f.name.and_then(|n| e.field(n)) } else { e.field_at(i) };
                let s = s.ok_or(format!("field {i} gone"))?;
                leaves(f.ty(), c, s, out)?;
            }
        }
        (K::List(t) | K::Array(t, _), M::List(v) | M::Array(v)) => {
            for (i, c) in v.iter().enumerate() {
                let s = match x.reflect_ref() {
                    ReflectRef::List(l) => l.get(i),
                    ReflectRef::Array(l) => l.get(i),
                    _ => None,
                };
                leaves(t(), c, s.ok_or(format!("element {i} gone"))?, out)?;
            }
        }
        (K::Map(kt, vt), M::Map(v)) => {
            let map = x.as_map().ok_or("not a map")?;
            let mut used = std::collections::HashSet::new();
            for (k, val) in map.iter() {
                let km = read(k)?;
                let vm = read(val)?;
                let i = (0..v.len())
                    .find(|i| !used.contains(i) && v[*i].0.shown() == km && sorted_fields(&v[*i].1.shown()) == sorted_fields(&vm))
                    .ok_or("map lists an entry it does not have")?;
                used.insert(i);
                leaves(kt(), &v[i].0, k, out)?;
                leaves(vt(), &v[i].1, val, out)?;
            }
            ensure!(used.len() == v.len(), "map does not list all entries");
        }
        _ => return Err("value and type differ in kind".into()),
    }
    Ok(())
}

pub fn c16(cfg: &Cfg, reg: &Registry) -> Obs {
    each_type(cfg, reg, cfg.n(400, 10000), |o, r, ty| {
        let (v, m) = gen_value(r, ty);
        let dynamic = r.chance(1, 4)
            && !ty.any_part(|t| matches!(t.k, K::Array(..) | K::Opaque(_) | K::Via(..)));
        o.note(|| format!("type {} value {} dynamic {dynamic}", ty.name, short(&m)));
        o.seen(&(ty.name, &m));
        let d;
        let (x, m): (&dyn Reflect, M) = if dynamic {
            // a value from elsewhere can have its fields in another order than the type declares
            let shuffle = r.chance(1, 2) && !ty.any_part(|t| matches!(t.k, K::Any));
            d = if shuffle {
                o.ev("values with fields in another order");
                crate::mon_conv::shuffle_fields(r, &m.erased()).dynamic()
            } else {
                v.r().to_value()
            };
            (&d, m.erased())
        } else {
            (v.r(), m)
        };
        let mut want = vec![];
        leaves(ty, &m, x, &mut want)?;
        let desc = (ty.ops.desc)();
        let t: Type<'_> = desc.get_type();
        let mut rec = Rec { events: vec![], fail_at: usize::MAX };
        let res = try_visit(&mut rec, x, t);
        ensure!(res.is_ok(), "the visit failed although the visitor did not");
        o.evn("leaves visited", want.len() as u64);
        ensure!(rec.events == want, "leaves: expected {:?}\n  observed {:?}", clip(&want), clip(&rec.events));
        let n = want.len();
        // visitors that are only interested in some leaves, or none
        ensure!(try_visit(&mut Uninterested, x, t) == Ok(()), "a visit of nothing failed");
        let mut some = Some8 { events: vec![], stop: None };
        ensure!(try_visit(&mut some, x, t) == Ok(()), "a visit of some leaves failed");
        let want8: Vec<u64> = want.iter().filter_map(Some8::of).collect();
        ensure!(some.events == want8, "a visit of some leaves met {:?}, not {:?}", some.events, want8);
        if !want8.is_empty() {
            let k = r.below(want8.len());
            let mut some = Some8 { events: vec![], stop: Some(k) };
            ensure!(try_visit(&mut some, x, t) == Err(Never::Stop) && some.events == want8[..=k], "a visit of some leaves that fails at the {k}th met {:?}, not {:?}", some.events, &want8[..=k]);
        }
        o.ev("partial visits");
        for _ in 0..4 {
            if n == 0 {
                break;
            }
            let k = r.below(n);
            let mut rec = Rec { events: vec![], fail_at: k };
            let res = try_visit(&mut rec, x, t);
            ensure!(res == Err(k + 1), "error at leaf {k} of {n} gave {res:?}");
            ensure!(rec.events[..] == want[..=k], "error at leaf {k} of {n}: the visit went on to {} leaves", rec.events.len());
            o.ev("errors injected");
        }
        o.sample(|| format!("{}: {n} leaves of {}", ty.name, short(&m)));
        Ok(())
    })
}

fn clip(v: &[Leaf]) -> String {
    let mut s = format!("{v:?}");
    if s.len() > 800 {
        let mut c = 800;
        while !s.is_char_boundary(c) {
            c -= 1;
        }
        s.truncate(c);
    }
    s
}

// ---------------------------------------------------------------------------------------------
// views

pub fn kind_of(m: &M) -> &'static str {
    match m {
        M::S(_) | M::Via(..) => "scalar",
        M::Struct(_) => "struct",
        M::TupleStruct(_) => "tuple struct",
        M::Tuple(_) => "tuple",
        M::Enum(..) => "enum",
        M::List(_) => "list",
        M::Array(_) => "array",
        M::Map(_) => "map",
        M::Opaque(..) => "opaque",
    }
}

fn kind_ref(r: &ReflectRef<'_>) -> &'static str {
    match r {
        ReflectRef::Struct(_) => "struct",
        ReflectRef::TupleStruct(_) => "tuple struct",
        ReflectRef::Tuple(_) => "tuple",
        ReflectRef::Enum(_) => "enum",
        ReflectRef::Array(_) => "array",
        ReflectRef::List(_) => "list",
        ReflectRef::Map(_) => "map",
        ReflectRef::Scalar(_) => "scalar",
        ReflectRef::Opaque(_) => "opaque",
    }
}

fn kind_mut(r: &ReflectMut<'_>) -> &'static str {
    match r {
        ReflectMut::Struct(_) => "struct",
        ReflectMut::TupleStruct(_) => "tuple struct",
        ReflectMut::Tuple(_) => "tuple",
        ReflectMut::Enum(_) => "enum",
        ReflectMut::Array(_) => "array",
        ReflectMut::List(_) => "list",
        ReflectMut::Map(_) => "map",
        ReflectMut::Scalar(_) => "scalar",
        ReflectMut::Opaque(_) => "opaque",
    }
}

fn kind_owned(r: &ReflectOwned) -> &'static str {
    match r {
        ReflectOwned::Struct(_) => "struct",
        ReflectOwned::TupleStruct(_) => "tuple struct",
        ReflectOwned::Tuple(_) => "tuple",
        ReflectOwned::Enum(_) => "enum",
        ReflectOwned::Array(_) => "array",
        ReflectOwned::List(_) => "list",
        ReflectOwned::Map(_) => "map",
        ReflectOwned::Scalar(_) => "scalar",
        ReflectOwned::Opaque(_) => "opaque",
    }
}

const KINDS: [&str; 8] = ["struct", "tuple struct", "tuple", "enum", "array", "list", "map", "scalar"];

fn views(o: &mut Obs, r: &mut Rng, reg: &Registry, x: &mut dyn Reflect, m: &M, via: bool) -> Res {
    let kind = kind_of(m);
    let shown = m.shown();
    let eq = |what: &str, y: &dyn Reflect| -> Res {
        let g = read(y)?;
        ensure!(g == shown, "{what}: {}", diff(&shown, &g));
        Ok(())
    };
    // shared
    let v = x.reflect_ref();
    ensure!(kind_ref(&v) == kind, "reflect_ref is {}, expected {kind}", kind_ref(&v));
    eq("reflect_ref().as_reflect()", v.as_reflect())?;
    eq("as_reflect()", x.as_reflect())?;
    for k in KINDS {
        let got: Option<&dyn Reflect> = match k {
            "struct" => x.as_struct().map(|s| s.as_reflect()),
            "tuple struct" => x.as_tuple_struct().map(|s| s.as_reflect()),
            "tuple" => x.as_tuple().map(|s| s.as_reflect()),
            "enum" => x.as_enum().map(|s| s.as_reflect()),
            "array" => x.as_array().map(|s| s.as_reflect()),
            "list" => x.as_list().map(|s| s.as_reflect()),
            "map" => x.as_map().map(|s| s.as_reflect()),
            _ => {
                if let Some(s) = x.as_scalar() {
                    ensure!(k == kind, "as_scalar works on a {kind}");
                    ensure!(M::S(scalar_ref(&s)) == shown, "as_scalar gives {:?}", scalar_ref(&s));
                    eq("scalar view as_reflect", s.as_reflect())?;
                } else {
                    ensure!(k != kind, "as_scalar does not work on a scalar");
                }
                continue;
            }
        };
        ensure!(got.is_some() == (k == kind), "cast to {k} of a {kind}: {}", got.is_some());
        if let Some(g) = got {
            eq(k, g)?;
            ensure!(g.as_any().type_id() == x.as_any().type_id(), "the {k} view has another concrete type");
        }
        o.ev("shared casts");
    }
    {
        let v = x.reflect_ref();
        ensure!(v.as_opaque().is_some() == (kind == "opaque"), "as_opaque of a {kind}");
        let got = match kind {
            "struct" => x.reflect_ref().as_struct().is_some(),
            "tuple struct" => x.reflect_ref().as_tuple_struct().is_some(),
            "tuple" => x.reflect_ref().as_tuple().is_some(),
            "enum" => x.reflect_ref().as_enum().is_some(),
            "array" => x.reflect_ref().as_array().is_some(),
            "list" => x.reflect_ref().as_list().is_some(),
            "map" => x.reflect_ref().as_map().is_some(),
            "scalar" => x.reflect_ref().as_scalar().is_some(),
            _ => true,
        };
        ensure!(got, "the {kind} view does not cast to itself");
    }
    // mutable
    let mkind = if via { "opaque" } else { kind };
    {
        let id = x.as_any().type_id();
        let mut v = x.reflect_mut();
        ensure!(kind_mut(&v) == mkind, "reflect_mut is {}, expected {mkind}", kind_mut(&v));
        eq("reflect_mut().as_reflect()", v.as_reflect())?;
        eq("reflect_mut().as_reflect_mut()", v.as_reflect_mut())?;
        eq("as_reflect_mut()", x.as_reflect_mut())?;
        match x.reflect_mut().as_opaque_mut() {
            Some(y) => {
                ensure!(mkind == "opaque", "as_opaque_mut works on a {mkind}");
                eq("as_opaque_mut()", y)?;
            }
            None => ensure!(mkind != "opaque", "as_opaque_mut does not work on something opaque"),
        }
        ensure!(x.as_any_mut().type_id() == id, "as_any and as_any_mut disagree about the type");
    }
    for k in KINDS {
        let got: Option<&mut dyn Reflect> = match k {
            "struct" => x.as_struct_mut().map(|s| s.as_reflect_mut()),
            "tuple struct" => x.as_tuple_struct_mut().map(|s| s.as_reflect_mut()),
            "tuple" => x.as_tuple_mut().map(|s| s.as_reflect_mut()),
            "enum" => x.as_enum_mut().map(|s| s.as_reflect_mut()),
            "array" => x.as_array_mut().map(|s| s.as_reflect_mut()),
            "list" => x.as_list_mut().map(|s| s.as_reflect_mut()),
            "map" => x.as_map_mut().map(|s| s.as_reflect_mut()),
            _ => {
                if let Some(mut s) = x.as_scalar_mut() {
                    ensure!(k == mkind, "as_scalar_mut works on a {mkind}");
                    ensure!(M::S(scalar_mut(&s)) == shown, "as_scalar_mut gives {:?}", scalar_mut(&s));
                    eq("mutable scalar view as_reflect", s.as_reflect())?;
                    eq("mutable scalar view as_reflect_mut", s.as_reflect_mut())?;
                } else {
                    ensure!(k != mkind, "as_scalar_mut does not work on a scalar");
                }
                continue;
            }
        };
        ensure!(got.is_some() == (k == mkind), "mutable cast to {k} of a {mkind}: {}", got.is_some());
        if let Some(g) = got {
            eq(k, g)?;
        }
        o.ev("mutable casts");
    }
    // owned
    let owned = x.clone_reflect().reflect_owned();
    ensure!(kind_owned(&owned) == kind, "reflect_owned is {}, expected {kind}", kind_owned(&owned));
    eq("reflect_owned().as_reflect()", owned.as_reflect())?;
    let mut owned = owned;
    eq("reflect_owned().as_reflect_mut()", owned.as_reflect_mut())?;
    for k in KINDS {
        let c = x.clone_reflect();
        let c2 = x.clone_reflect().reflect_owned();
        let (got, got2): (Option<Box<dyn Reflect>>, Option<Box<dyn Reflect>>) = match k {
            "struct" => (c.into_struct().map(|s| s.clone_reflect()), c2.into_struct().map(|s| s.clone_reflect())),
            "tuple struct" => (c.into_tuple_struct().map(|s| s.clone_reflect()), c2.into_tuple_struct().map(|s| s.clone_reflect())),
            "tuple" => (c.into_tuple().map(|s| s.clone_reflect()), c2.into_tuple().map(|s| s.clone_reflect())),
            "enum" => (c.into_enum().map(|s| s.clone_reflect()), c2.into_enum().map(|s| s.clone_reflect())),
            "array" => (c.into_array().map(|s| s.clone_reflect()), c2.into_array().map(|s| s.clone_reflect())),
            "list" => (c.into_list().map(|s| s.clone_reflect()), c2.into_list().map(|s| s.clone_reflect())),
            "map" => (c.into_map().map(|s| s.clone_reflect()), c2.into_map().map(|s| s.clone_reflect())),
            _ => {
                let (a, b) = (c.into_scalar(), c2.into_scalar());
                ensure!(a.is_some() == (k == kind) && b.is_some() == (k == kind), "into_scalar of a {kind}");
                for mut s in a.into_iter().chain(b) {
                    ensure!(M::S(scalar_owned(&s)) == shown, "into_scalar gives {:?}", scalar_owned(&s));
                    eq("owned scalar as_reflect", s.as_reflect())?;
                    eq("owned scalar as_reflect_mut", s.as_reflect_mut())?;
                }
                continue;
            }
        };
        ensure!(got.is_some() == (k == kind) && got2.is_some() == (k == kind), "owned cast to {k} of a {kind}");
        for g in got.into_iter().chain(got2) {
            eq(k, &*g)?;
        }
        o.ev("owned casts");
    }
    let op = x.clone_reflect().reflect_owned().into_opaque();
    ensure!(op.is_some() == (kind == "opaque"), "into_opaque of a {kind}");
    // downcasts to other types
    for _ in 0..3 {
        let other = (r.pick(reg).1)();
        let is = x.as_any().type_id() == other.id;
        let got = (other.native)(x.as_any());
        if !matches!(other.k, K::Any) {
            ensure!(got.is_some() == is, "downcast to {}: {}", other.name, got.is_some());
            if let Some(g) = got {
                ensure!(g.shown() == shown, "downcast to {}: {}", other.name, diff(&shown, &g.shown()));
            }
            o.ev("downcasts");
        }
    }
    Ok(())
}

/// Assigns through a mutable scalar view.
fn scalar_write(o: &mut Obs, r: &mut Rng, s: &mut Subj, m: &M) -> Result<M, String> {
    let M::S(sc) = m else { return Ok(m.clone()) };
    let new = other_scalar(r, sc);
    match s.r_mut().as_scalar_mut() {
        Some(x) => {
            ensure!(scalar_assign(x, &new), "the mutable scalar view has another kind");
        }
        None => return Err("as_scalar_mut gave nothing".into()),
    }
    o.ev("scalars written");
    let want = M::S(new);
    let now = s.model();
    ensure!(now == want, "write through the scalar view: {}", diff(&want, &now));
    Ok(want)
}

pub fn c18(cfg: &Cfg, reg: &Registry) -> Obs {
    let all = reg.clone();
    each_type(cfg, reg, cfg.n(150, 4000), move |o, r, ty| {
        let (mut s, sty, mut m) = gen_subj(r, ty);
        o.note(|| format!("type {} {} value {}", ty.name, if sty.is_some() { "typed" } else { "dynamic" }, short(&m)));
        o.seen(&(sty.is_some(), &m));
        let via = matches!(m, M::Via(..));
        views(o, r, &all, s.r_mut(), &m, via)?;
        if let Subj::T(v) = &mut s {
            if !matches!(ty.k, K::Any) {
                ensure!(v.r().as_any().type_id() == ty.id, "as_any is not a {}", ty.name);
                match ((ty.native)(v.r().as_any()), (ty.native)(v.r_mut().as_any_mut())) {
                    (Some(a), Some(b)) => ensure!(a == m && b == m, "downcast: {}", diff(&m, &a)),
                    _ => return Err(format!("downcast to {} failed", ty.name)),
                }
            }
            let d = v.desc_of();
            ensure!(d.type_name() == ty.name, "type_descriptor names {}, expected {}", d.type_name(), ty.name);
            let want = match (&ty.k, &m) {
                (K::Any | K::Via(..) | K::Opaque(_), _) => "opaque",
                (_, m) => kind_of(m),
            };
            let got = match d.get_type() {
                Type::Struct(_) => "struct",
                Type::TupleStruct(_) => "tuple struct",
                Type::Tuple(_) => "tuple",
                Type::Enum(_) => "enum",
                Type::List(_) => "list",
                Type::Array(_) => "array",
                Type::Map(_) => "map",
                Type::Scalar(_) => "scalar",
                Type::Opaque(_) => "opaque",
            };
            ensure!(got == want, "the type description is a {got}, expected {want}");
            let mut b: Box<Box<dyn Reflect>> = Box::new(v.r().clone_reflect());
            views(o, r, &all, &mut **b, &m, via)?;
        }
        if !via {
            m = scalar_write(o, r, &mut s, &m)?;
        }
        // a part, seen through its parent
        for _ in 0..2 {
            let p = gen_path(r, &m, false, 6);
            if let Ok(Some((_, part))) = oracle::nav(sty, &m, &p) {
                let part = part.clone();
                if let Some(x) = s.r_mut().at_mut(&key_path(&p)) {
                    let via = matches!(part, M::Via(..));
                    views(o, r, &all, x, &part, via).map_err(|e| format!("part {}: {e}", show_path(&p)))?;
                    o.ev("parts viewed");
                }
            }
        }
        ensure!(s.model() == m, "looking at the value changed it");
        o.sample(|| format!("{}: views of {}", ty.name, short(&m)));
        Ok(())
    })
}

#[allow(unused)]
fn _unused(_: VariantField<'_>, _: &dyn Enum, _: &dyn Struct) {}
