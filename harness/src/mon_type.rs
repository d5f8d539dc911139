//! C06 C07 C13 C15: type descriptions against the declarations.

use mirror_mirror::key_path::{GetPath, GetTypePath, KeyPath};
use mirror_mirror::type_info::*;
use mirror_mirror::{TypeDescriptor, Value};
use std::collections::HashSet;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::observe::*;
use crate::oracle::{self, default_of, default_of_variant, default_recurses, key_path, nav_ty, show_path, TyPos, PK};
use crate::rng::Rng;

pub fn kind_of_ty(ty: &Ty) -> &'static str {
    match &ty.k {
        K::Scalar(_) => "scalar",
        K::Via(..) | K::Any | K::Opaque(_) => "opaque",
        K::Struct(_) => "struct",
        K::TupleStruct(_) => "tuple_struct",
        K::Tuple(_) => "tuple",
        K::Enum(_) => "enum",
        K::List(_) => "list",
        K::Array(..) => "array",
        K::Map(..) => "map",
    }
}

pub fn kind_of_type(t: &Type<'_>) -> &'static str {
    match t {
        Type::Struct(_) => "struct",
        Type::TupleStruct(_) => "tuple_struct",
        Type::Tuple(_) => "tuple",
        Type::Enum(_) => "enum",
        Type::List(_) => "list",
        Type::Array(_) => "array",
        Type::Map(_) => "map",
        Type::Scalar(_) => "scalar",
        Type::Opaque(_) => "opaque",
    }
}

fn scalar_kind(s: ScalarType) -> SK {
    match s {
        ScalarType::usize => SK::Usize,
        ScalarType::u8 => SK::U8,
        ScalarType::u16 => SK::U16,
        ScalarType::u32 => SK::U32,
        ScalarType::u64 => SK::U64,
        ScalarType::u128 => SK::U128,
        ScalarType::i8 => SK::I8,
        ScalarType::i16 => SK::I16,
        ScalarType::i32 => SK::I32,
        ScalarType::i64 => SK::I64,
        ScalarType::i128 => SK::I128,
        ScalarType::bool => SK::Bool,
        ScalarType::char => SK::Char,
        ScalarType::f32 => SK::F32,
        ScalarType::f64 => SK::F64,
        ScalarType::String => SK::Str,
    }
}

const META_KEYS: [&str; 14] = ["m", "m1", "m2", "m3", "unit", "name", "min", "r_", "key", "value", "label", "x", "a", ""];

fn check_meta<'a, G: GetMeta<'a> + Copy>(what: &str, g: G, meta: &[(&'static str, M)], docs: &[&'static str], o: &mut Obs) -> Res {
    for (k, m) in meta {
        match g.meta(k) {
            Some(x) => {
                let got = read(x)?;
                ensure!(got.erased() == m.erased(), "{what}: metadata {k}: {}", diff(&m.erased(), &got));
            }
            None => return Err(format!("{what}: metadata {k} is missing")),
        }
        match g.get_meta::<Value>(k) {
            Some(x) => ensure!(read_value(&x) == m.erased(), "{what}: metadata {k} taken as a value: {}", diff(&m.erased(), &read_value(&x))),
            None => return Err(format!("{what}: metadata {k} taken as a value is missing")),
        }
        if let M::S(Sc::I32(n)) = m {
            ensure!(g.get_meta::<i32>(k) == Some(*n), "{what}: metadata {k} taken as i32: {:?}", g.get_meta::<i32>(k));
            ensure!(g.get_meta::<String>(k).is_none(), "{what}: metadata {k} taken as String");
        }
        o.ev("metadata entries compared");
    }
    for k in META_KEYS {
        if meta.iter().all(|x| x.0 != k) {
            ensure!(g.meta(k).is_none(), "{what}: metadata {k} was not declared");
        }
    }
    let got: Vec<&str> = g.docs().iter().map(|s| s.as_str()).collect();
    ensure!(got == docs, "{what}: docs are {got:?}, declared {docs:?}");
    o.evn("doc lines compared", docs.len() as u64);
    Ok(())
}

pub type Child<'a> = (PK, &'static Ty, Type<'a>);

fn check_named<'a>(
    what: &str,
    fs: &[FieldTy],
    types: Vec<NamedField<'a>>,
    len: usize,
    by_name: &dyn Fn(&str) -> Option<NamedField<'a>>,
    by_index: &dyn Fn(usize) -> Option<NamedField<'a>>,
    o: &mut Obs,
    out: &mut Vec<(Vec<PK>, &'static Ty, Type<'a>)>,
    prefix: &[PK],
) -> Res {
    let names: Vec<&str> = types.iter().map(|f| f.name()).collect();
    let want: Vec<&str> = fs.iter().map(|f| f.name.unwrap_or("")).collect();
    ensure!(names == want, "{what}: fields {names:?}, declared {want:?}");
    ensure!(len == want.len(), "{what}: fields_len {len}, declared {}", want.len());
    for (i, f) in fs.iter().enumerate() {
        let n = f.name.unwrap_or("");
        let a = types[i];
        let b = by_name(n);
        let c = by_index(i);
        let w = format!("{what}.{n}");
        check_meta(&w, a, &f.meta, &f.docs, o)?;
        for (how, x) in [("by name", b), ("by position", c)] {
            match x {
                Some(x) => {
                    ensure!(x.name() == n, "{w} {how} is called {}", x.name());
                    ensure!(x.get_type().type_name() == a.get_type().type_name() && kind_of_type(&x.get_type()) == kind_of_type(&a.get_type()), "{w} {how} has another type");
                    check_meta(&format!("{w} {how}"), x, &f.meta, &f.docs, o)?;
                }
                None => return Err(format!("{w} is not found {how}")),
            }
        }
        let mut p = prefix.to_vec();
        p.push(PK::Name(n.to_owned()));
        out.push((p, f.ty(), a.get_type()));
        o.ev("fields compared");
    }
    for n in ["", "0", "nope", "field_0", "Some", "skipped", "s", "hidden"] {
        if !want.contains(&n) {
            ensure!(by_name(n).is_none(), "{what}: field {n:?} was not declared");
        }
    }
    for i in [want.len(), want.len() + 1, usize::MAX] {
        ensure!(by_index(i).is_none(), "{what}: field at {i} was not declared");
    }
    Ok(())
}

fn check_unnamed<'a>(
    what: &str,
    fs: &[FieldTy],
    types: Vec<UnnamedField<'a>>,
    len: usize,
    by_index: &dyn Fn(usize) -> Option<UnnamedField<'a>>,
    o: &mut Obs,
    out: &mut Vec<(Vec<PK>, &'static Ty, Type<'a>)>,
    prefix: &[PK],
) -> Res {
    ensure!(types.len() == fs.len(), "{what}: {} fields, declared {}", types.len(), fs.len());
    ensure!(len == fs.len(), "{what}: fields_len {len}, declared {}", fs.len());
    for (i, f) in fs.iter().enumerate() {
        let a = types[i];
        let w = format!("{what}.{i}");
        check_meta(&w, a, &f.meta, &f.docs, o)?;
        match by_index(i) {
            Some(x) => {
                ensure!(x.get_type().type_name() == a.get_type().type_name() && kind_of_type(&x.get_type()) == kind_of_type(&a.get_type()), "{w} by position has another type");
                check_meta(&format!("{w} by position"), x, &f.meta, &f.docs, o)?;
            }
            None => return Err(format!("{w} is not found by position")),
        }
        let mut p = prefix.to_vec();
        p.push(PK::Num(i));
        out.push((p, f.ty(), a.get_type()));
        o.ev("fields compared");
    }
    for i in [fs.len(), fs.len() + 1, usize::MAX] {
        ensure!(by_index(i).is_none(), "{what}: field at {i} was not declared");
    }
    Ok(())
}

pub fn check_variant<'a>(ty: &'static Ty, vt: &'static VariantTy, v: Variant<'a>, o: &mut Obs, out: &mut Vec<(Vec<PK>, &'static Ty, Type<'a>)>) -> Res {
    let what = format!("{}::{}", ty.name, vt.name);
    ensure!(v.name() == vt.name, "{what}: variant is called {}", v.name());
    ensure!(v.type_name() == ty.name, "{what}: type name {}", v.type_name());
    ensure!(v.enum_type().type_name() == ty.name, "{what}: enum type {}", v.enum_type().type_name());
    check_meta(&what, v, &vt.meta, &vt.docs, o)?;
    let kind = match v {
        Variant::Unit(_) => VK::Unit,
        Variant::Tuple(_) => VK::Tuple,
        Variant::Struct(_) => VK::Struct,
    };
    ensure!(kind == vt.kind, "{what}: {kind:?} variant, declared {:?}", vt.kind);
    ensure!(v.fields_len() == vt.fields.len(), "{what}: fields_len {}, declared {}", v.fields_len(), vt.fields.len());
    let generic: Vec<VariantField<'a>> = v.field_types().collect();
    ensure!(generic.len() == vt.fields.len(), "{what}: {} field types, declared {}", generic.len(), vt.fields.len());
    for (i, f) in vt.fields.iter().enumerate() {
        ensure!(generic[i].name() == f.name, "{what}: field {i} is called {:?}, declared {:?}", generic[i].name(), f.name);
        check_meta(&format!("{what} field {i}"), generic[i], &f.meta, &f.docs, o)?;
        match v.field_type_at(i) {
            Some(x) => ensure!(x.name() == f.name && x.get_type().type_name() == f.ty().name && generic[i].get_type().type_name() == f.ty().name, "{what}: field at {i} differs"),
            None => return Err(format!("{what}: no field at {i}")),
        }
        match f.name {
            Some(n) => match v.field_type(n) {
                Some(x) => ensure!(x.name() == n && x.get_type().type_name() == f.ty().name, "{what}: field {n} differs"),
                None => return Err(format!("{what}: no field {n}")),
            },
            None => ensure!(v.field_type(&format!("field_{i}")).is_none() && v.field_type(&i.to_string()).is_none(), "{what}: positional field {i} is found by name"),
        }
    }
    ensure!(v.field_type_at(vt.fields.len()).is_none() && v.field_type_at(usize::MAX).is_none(), "{what}: field past the end");
    let prefix = [PK::Variant(vt.name.to_owned())];
    match v {
        Variant::Unit(u) => {
            ensure!(u.name() == vt.name && u.type_name() == ty.name && u.enum_type().type_name() == ty.name, "{what}: names");
            check_meta(&what, u, &vt.meta, &vt.docs, o)?;
        }
        Variant::Tuple(u) => {
            ensure!(u.name() == vt.name && u.type_name() == ty.name && u.enum_type().type_name() == ty.name, "{what}: names");
            check_meta(&what, u, &vt.meta, &vt.docs, o)?;
            check_unnamed(&what, &vt.fields, u.field_types().collect(), u.fields_len(), &|i| u.field_type_at(i), o, out, &prefix)?;
        }
        Variant::Struct(u) => {
            ensure!(u.name() == vt.name && u.type_name() == ty.name && u.enum_type().type_name() == ty.name, "{what}: names");
            check_meta(&what, u, &vt.meta, &vt.docs, o)?;
            check_named(&what, &vt.fields, u.field_types().collect(), u.fields_len(), &|n| u.field_type(n), &|i| u.field_type_at(i), o, out, &prefix)?;
        }
    }
    o.ev("variants compared");
    Ok(())
}

/// Compares one node of a description with the declaration; gives its parts.
pub fn check_node<'a>(ty: &'static Ty, t: Type<'a>, o: &mut Obs) -> Result<Vec<(Vec<PK>, &'static Ty, Type<'a>)>, String> {
    let mut out = vec![];
    let what = ty.name;
    ensure!(kind_of_type(&t) == kind_of_ty(ty), "{what} is described as {}", kind_of_type(&t));
    ensure!(t.type_name() == what, "{what} is described with the name {}", t.type_name());
    let casts = [
        ("struct", t.as_struct().is_some()),
        ("tuple_struct", t.as_tuple_struct().is_some()),
        ("tuple", t.as_tuple().is_some()),
        ("enum", t.as_enum().is_some()),
        ("list", t.as_list().is_some()),
        ("array", t.as_array().is_some()),
        ("map", t.as_map().is_some()),
        ("scalar", t.as_scalar().is_some()),
        ("opaque", t.as_opaque().is_some()),
    ];
    for (k, is) in casts {
        ensure!(is == (k == kind_of_ty(ty)), "{what}: as_{k} gives {is}");
    }
    let meta_kind = matches!(ty.k, K::Struct(_) | K::TupleStruct(_) | K::Enum(_) | K::Opaque(_));
    if meta_kind {
        check_meta(what, t, &ty.meta, &ty.docs, o)?;
    } else {
        check_meta(what, t, &[], &[], o)?;
    }
    match (&ty.k, t) {
        (K::Scalar(k), Type::Scalar(s)) => {
            ensure!(scalar_kind(s) == *k, "{what} is described as {s:?}");
            ensure!(s.type_name() == what, "{what}: scalar name {}", s.type_name());
        }
        (K::Struct(fs), Type::Struct(s)) => {
            ensure!(s.type_name() == what, "{what}: {}", s.type_name());
            check_meta(what, s, &ty.meta, &ty.docs, o)?;
            check_named(what, fs, s.field_types().collect(), s.fields_len(), &|n| s.field_type(n), &|i| s.field_type_at(i), o, &mut out, &[])?;
        }
        (K::TupleStruct(fs), Type::TupleStruct(s)) => {
            ensure!(s.type_name() == what, "{what}: {}", s.type_name());
            check_meta(what, s, &ty.meta, &ty.docs, o)?;
            check_unnamed(what, fs, s.field_types().collect(), s.fields_len(), &|i| s.field_type_at(i), o, &mut out, &[])?;
        }
        (K::Tuple(fs), Type::Tuple(s)) => {
            ensure!(s.type_name() == what, "{what}: {}", s.type_name());
            check_unnamed(what, fs, s.field_types().collect(), s.fields_len(), &|i| s.field_type_at(i), o, &mut out, &[])?;
        }
        (K::Enum(vs), Type::Enum(s)) => {
            ensure!(s.type_name() == what, "{what}: {}", s.type_name());
            check_meta(what, s, &ty.meta, &ty.docs, o)?;
            let got: Vec<Variant<'a>> = s.variants().collect();
            let names: Vec<&str> = got.iter().map(|v| v.name()).collect();
            let want: Vec<&str> = vs.iter().map(|v| v.name).collect();
            ensure!(names == want, "{what}: variants {names:?}, declared {want:?}");
            ensure!(s.variants_len() == want.len(), "{what}: variants_len {}", s.variants_len());
            for (vt, v) in vs.iter().zip(got) {
                check_variant(ty, vt, v, o, &mut out)?;
                let mut again = vec![];
                match s.variant(vt.name) {
                    Some(v) => check_variant(ty, vt, v, o, &mut again)?,
                    None => return Err(format!("{what}: variant {} is not found by name", vt.name)),
                }
            }
            for n in ["", "nope", "Skipped", "a", "0"] {
                if !want.contains(&n) {
                    ensure!(s.variant(n).is_none(), "{what}: variant {n:?} was not declared");
                }
            }
        }
        (K::List(e), Type::List(s)) => {
            ensure!(s.type_name() == what, "{what}: {}", s.type_name());
            out.push((vec![PK::Get(M::S(Sc::Usize(0)))], e(), s.element_type()));
        }
        (K::Array(e, n), Type::Array(s)) => {
            ensure!(s.type_name() == what, "{what}: {}", s.type_name());
            ensure!(s.len() == *n && s.is_empty() == (*n == 0), "{what}: length {}, declared {n}", s.len());
            out.push((vec![PK::Get(M::S(Sc::Usize(0)))], e(), s.element_type()));
        }
        (K::Map(k, v), Type::Map(s)) => {
            ensure!(s.type_name() == what, "{what}: {}", s.type_name());
            // keys are not reached by a path
            out.push((vec![], k(), s.key_type()));
            out.push((vec![PK::Get(M::S(Sc::Usize(0)))], v(), s.value_type()));
        }
        (_, Type::Opaque(s)) => {
            ensure!(s.type_name() == what, "{what}: {}", s.type_name());
            check_meta(what, s, &ty.meta, &[], o)?;
        }
        _ => return Err(format!("{what} is described as {}", kind_of_type(&t))),
    }
    o.ev("nodes compared");
    Ok(out)
}

/// Compares the whole description below a node.
pub fn check_type(ty: &'static Ty, t: Type<'_>, o: &mut Obs) -> Result<usize, String> {
    let mut seen: HashSet<*const Ty> = HashSet::new();
    let mut todo = vec![(ty, t)];
    while let Some((ty, t)) = todo.pop() {
        if !seen.insert(ty as *const Ty) {
            // reached another way: still has to be the right type
            ensure!(t.type_name() == ty.name && kind_of_type(&t) == kind_of_ty(ty), "{} is described as {} {}", ty.name, kind_of_type(&t), t.type_name());
            continue;
        }
        for (_, cty, ct) in check_node(ty, t, o)? {
            todo.push((cty, ct));
        }
    }
    Ok(seen.len())
}

pub fn check_descriptor(ty: &'static Ty, d: &TypeDescriptor, o: &mut Obs) -> Res {
    ensure!(d.type_name() == ty.name, "{}: the description is called {}", ty.name, d.type_name());
    let casts = [
        ("struct", d.as_struct().is_some()),
        ("tuple_struct", d.as_tuple_struct().is_some()),
        ("tuple", d.as_tuple().is_some()),
        ("enum", d.as_enum().is_some()),
        ("list", d.as_list().is_some()),
        ("array", d.as_array().is_some()),
        ("map", d.as_map().is_some()),
        ("scalar", d.as_scalar().is_some()),
        ("opaque", d.as_opaque().is_some()),
    ];
    for (k, is) in casts {
        ensure!(is == (k == kind_of_ty(ty)), "{}: as_{k} gives {is}", ty.name);
    }
    let meta_kind = matches!(ty.k, K::Struct(_) | K::TupleStruct(_) | K::Enum(_) | K::Opaque(_));
    if meta_kind {
        check_meta(ty.name, d, &ty.meta, &ty.docs, o)?;
    } else {
        check_meta(ty.name, d, &[], &[], o)?;
    }
    check_type(ty, d.get_type(), o)?;
    Ok(())
}

fn extracted<'a>(t: Type<'a>) -> TypeDescriptor {
    match t {
        Type::Struct(x) => x.into_type_descriptor(),
        Type::TupleStruct(x) => x.into_type_descriptor(),
        Type::Tuple(x) => x.into_type_descriptor(),
        Type::Enum(x) => x.into_type_descriptor(),
        Type::List(x) => x.into_type_descriptor(),
        Type::Array(x) => x.into_type_descriptor(),
        Type::Map(x) => x.into_type_descriptor(),
        Type::Opaque(x) => x.into_type_descriptor(),
        Type::Scalar(_) => t.into_type_descriptor().into_owned(),
    }
}

pub fn c06(cfg: &Cfg, reg: &Registry) -> Obs {
    each_type(cfg, reg, cfg.n(8, 40), |o, r, ty| {
        o.note(|| format!("type {}", ty.name));
        let d = (ty.ops.desc)();
        check_descriptor(ty, &d, o)?;
        o.seen(&ty.name);
        // a value's own description
        let (mut v, m) = gen_value(r, ty);
        let vd = v.r().type_descriptor();
        check_descriptor(ty, &vd, o)?;
        ensure!(*vd == *d, "{}: a value's description differs from its type's", ty.name);
        let vd = v.desc_of();
        ensure!(*vd == *d, "{}: a typed value's description differs from its type's", ty.name);
        let vd = v.r_mut().as_reflect_mut().as_reflect().type_descriptor();
        // (a dynamic value's as_reflect is what it holds)
        ensure!(matches!(ty.k, K::Any) || *vd == *d, "{}: the description seen through as_reflect differs", ty.name);
        let c = v.r().clone_reflect();
        ensure!(*c.type_descriptor() == *d, "{}: the description of a copy differs", ty.name);
        o.ev("values' own descriptions compared");
        // parts' own descriptions
        for _ in 0..3 {
            let p = gen_path(r, &m, false, 6);
            if let Ok(Some((Some(pt), _))) = oracle::nav(Some(ty), &m, &p) {
                if matches!(pt.k, K::Any) {
                    continue;
                }
                if let Some(x) = v.r().at(&key_path(&p)) {
                    let pd = x.type_descriptor();
                    ensure!(pd.type_name() == pt.name, "part {} of {}: described as {}", show_path(&p), ty.name, pd.type_name());
                    check_node(pt, pd.get_type(), o)?;
                    o.ev("parts' own descriptions compared");
                }
            }
        }
        // random walk; every node met, taken out of the whole, is still the same
        let mut cur = (ty, d.get_type());
        for _ in 0..12 {
            let e = extracted(cur.1);
            check_descriptor(cur.0, &e, o)?;
            let e2 = cur.1.into_type_descriptor();
            ensure!(e2.type_name() == e.type_name(), "{}: extracted differently", cur.0.name);
            ensure!(e.get_type() == e2.get_type(), "{}: extracted differently", cur.0.name);
            o.ev("descriptions extracted");
            let own = (cur.0.ops.desc)();
            ensure!(own.type_name() == e.type_name(), "{}: own description is called {}", cur.0.name, own.type_name());
            let kids = check_node(cur.0, cur.1, o)?;
            if kids.is_empty() {
                break;
            }
            let (_, a, b) = kids[r.below(kids.len())].clone();
            cur = (a, b);
        }
        o.sample(|| format!("{}: {} types in its description", ty.name, ty.closure().len()));
        Ok(())
    })
}

fn at_as_type<'a>(t: TypeAtPath<'a>) -> Result<Type<'a>, Variant<'a>> {
    Ok(match t {
        TypeAtPath::Struct(x) => Type::Struct(x),
        TypeAtPath::TupleStruct(x) => Type::TupleStruct(x),
        TypeAtPath::Tuple(x) => Type::Tuple(x),
        TypeAtPath::Enum(x) => Type::Enum(x),
        TypeAtPath::Variant(x) => return Err(x),
        TypeAtPath::List(x) => Type::List(x),
        TypeAtPath::Array(x) => Type::Array(x),
        TypeAtPath::Map(x) => Type::Map(x),
        TypeAtPath::Scalar(x) => Type::Scalar(x),
        TypeAtPath::Opaque(x) => Type::Opaque(x),
    })
}

/// The type found by a path is the one the declaration says.
pub fn check_at(want: Option<TyPos>, got: Option<TypeAtPath<'_>>, what: &str, o: &mut Obs) -> Res {
    let (want, got) = match (want, got) {
        (None, None) => {
            o.ev("paths without a type");
            return Ok(());
        }
        (None, Some(g)) => return Err(format!("{what} finds {}", g.type_name())),
        (Some(_), None) => return Err(format!("{what} finds nothing")),
        (Some(w), Some(g)) => (w, g),
    };
    o.ev("paths with a type");
    let (is_variant, kind, ty) = match want {
        TyPos::Ty(t) => (false, kind_of_ty(t), t),
        TyPos::Variant(t, _) => (true, "variant", t),
    };
    let casts = [
        ("struct", got.as_struct().is_some()),
        ("tuple_struct", got.as_tuple_struct().is_some()),
        ("tuple", got.as_tuple().is_some()),
        ("enum", got.as_enum().is_some()),
        ("variant", got.as_variant().is_some()),
        ("list", got.as_list().is_some()),
        ("array", got.as_array().is_some()),
        ("map", got.as_map().is_some()),
        ("scalar", got.as_scalar().is_some()),
        ("opaque", got.as_opaque().is_some()),
    ];
    for (k, is) in casts {
        ensure!(is == (k == kind), "{what}: as_{k} gives {is}, expected a {kind}");
    }
    ensure!(got.type_name() == ty.name, "{what} finds {} instead of {}", got.type_name(), ty.name);
    match (at_as_type(got), want) {
        (Ok(t), TyPos::Ty(ty)) => {
            check_node(ty, t, o)?;
            let meta_kind = matches!(ty.k, K::Struct(_) | K::TupleStruct(_) | K::Enum(_) | K::Opaque(_));
            if meta_kind {
                check_meta(what, got, &ty.meta, &ty.docs, o)?;
            } else {
                check_meta(what, got, &[], &[], o)?;
            }
        }
        (Err(v), TyPos::Variant(ty, i)) => {
            if let K::Enum(vs) = &ty.k {
                check_variant(ty, &vs[i], v, o, &mut vec![])?;
                check_meta(what, got, &vs[i].meta, &vs[i].docs, o)?;
            }
        }
        _ => return Err(format!("{what}: variant {is_variant} expected")),
    }
    Ok(())
}

fn type_at_inner<'a>(t: Type<'a>, p: &KeyPath) -> Option<Option<TypeAtPath<'a>>> {
    Some(match t {
        Type::Struct(x) => x.type_at(p),
        Type::TupleStruct(x) => x.type_at(p),
        Type::Tuple(x) => x.type_at(p),
        Type::Enum(x) => x.type_at(p),
        Type::List(x) => x.type_at(p),
        Type::Map(x) => x.type_at(p),
        Type::Scalar(x) => x.type_at(p),
        Type::Array(_) | Type::Opaque(_) => return None,
    })
}

/// A path over the declaration, not through any particular value.
pub fn gen_type_path(r: &mut Rng, ty: &'static Ty, max: usize) -> Vec<PK> {
    let mut out = vec![];
    let mut cur = ty;
    while out.len() < max && !r.chance(1, 12) {
        match &cur.k {
            K::Struct(fs) if !fs.is_empty() => {
                let f = r.pick(fs);
                out.push(PK::Name(f.name.unwrap_or("").to_owned()));
                cur = f.ty();
            }
            K::TupleStruct(fs) | K::Tuple(fs) if !fs.is_empty() => {
                let i = r.below(fs.len());
                out.push(PK::Num(i));
                cur = fs[i].ty();
            }
            K::Enum(vs) if !vs.is_empty() => {
                let v = r.pick(vs);
                out.push(PK::Variant(v.name.to_owned()));
                if v.fields.is_empty() {
                    break;
                }
                let i = r.below(v.fields.len());
                out.push(match v.fields[i].name {
                    Some(n) => PK::Name(n.to_owned()),
                    None => PK::Num(i),
                });
                cur = v.fields[i].ty();
            }
            K::List(e) | K::Array(e, _) => {
                let i = r.below(300);
                out.push(PK::Get(index_key(r, i)));
                cur = e();
            }
            K::Map(_, v) => {
                out.push(PK::Get(gen_m(r, 1)));
                cur = v();
            }
            _ => break,
        }
    }
    out
}

pub fn check_path_everywhere(r: &mut Rng, o: &mut Obs, ty: &'static Ty, d: &TypeDescriptor, p: &[PK]) -> Res {
    let kp = key_path(p);
    let want = nav_ty(ty, p);
    let what = format!("type path {} of {}", show_path(p), ty.name);
    check_at(want, d.type_at(&kp), &what, o)?;
    check_at(want, d.get_type().type_at(&kp), &what, o)?;
    if let Some(x) = type_at_inner(d.get_type(), &kp) {
        check_at(want, x, &what, o)?;
    }
    // starting in the middle
    let i = r.below(p.len() + 1);
    let (a, b) = (key_path(&p[..i]), key_path(&p[i..]));
    let head = d.type_at(&a);
    check_at(nav_ty(ty, &p[..i]), head, &format!("{what}, first {i} keys"), o)?;
    if let Some(h) = head {
        check_at(want, h.type_at(&b), &format!("{what}, split at {i}"), o)?;
        match at_as_type(h) {
            Ok(t) => {
                check_at(want, t.type_at(&b), &format!("{what}, split at {i} from the type"), o)?;
                if let Some(x) = type_at_inner(t, &b) {
                    check_at(want, x, &format!("{what}, split at {i} from the typed view"), o)?;
                }
            }
            Err(v) => check_at(want, v.type_at(&b), &format!("{what}, split at {i} from the variant"), o)?,
        }
        o.ev("paths split");
    }
    Ok(())
}

pub fn c07(cfg: &Cfg, reg: &Registry) -> Obs {
    each_type(cfg, reg, cfg.n(300, 6000), |o, r, ty| {
        let (v, m) = gen_value(r, ty);
        let d = (ty.ops.desc)();
        let p = if r.chance(1, 2) { gen_path(r, &m, true, 8) } else { gen_type_path(r, ty, 10) };
        o.note(|| format!("type {} path {} value {}", ty.name, show_path(&p), short(&m)));
        o.seen(&(ty.name, &p));
        check_path_everywhere(r, o, ty, &d, &p)?;
        // what a value has there is of the type found
        if let Ok(Some((Some(pt), part))) = oracle::nav(Some(ty), &m, &p) {
            if !matches!(pt.k, K::Any) {
                match (v.r().at(&key_path(&p)), d.type_at(&key_path(&p))) {
                    (Some(x), Some(t)) => {
                        ensure!(x.type_descriptor().type_name() == t.type_name(), "{}: the value there is a {} and the type found is {}", show_path(&p), x.type_descriptor().type_name(), t.type_name());
                        let got = read(x)?;
                        ensure!(got == part.shown(), "{}: {}", show_path(&p), diff(&part.shown(), &got));
                        if let TypeAtPath::Variant(tv) = t {
                            match x.as_enum() {
                                Some(e) => ensure!(e.variant_name() == tv.name(), "variant {} found, value is in {}", tv.name(), e.variant_name()),
                                None => return Err("a variant was found but the value is no enum".into()),
                            }
                        }
                        o.ev("values compared with their type");
                    }
                    (None, _) => return Err(format!("{}: the value has no part there", show_path(&p))),
                    // a path that ends on a dynamic value's inside was excluded above
                    (_, None) => return Err(format!("{}: the value has a part there, the type does not", show_path(&p))),
                }
            }
        }
        for _ in 0..3 {
            let b = if r.chance(1, 5) { (0..1 + r.below(3)).map(|_| gen_key(r)).collect() } else { break_path(r, &p) };
            o.note(|| format!("type {} path {}", ty.name, show_path(&b)));
            o.seen(&(ty.name, &b));
            check_path_everywhere(r, o, ty, &d, &b)?;
        }
        o.sample(|| format!("{} at {} -> {}", ty.name, show_path(&p), d.type_at(&key_path(&p)).map(|x| x.type_name()).unwrap_or("-")));
        Ok(())
    })
}

fn check_default(what: &str, want: &Option<M>, got: Option<Value>, has: bool, o: &mut Obs) -> Res {
    ensure!(has == got.is_some(), "{what}: has_default_value is {has} but default_value is {:?}", got);
    match (want, got) {
        (None, None) => {
            o.ev("absent defaults");
            Ok(())
        }
        (Some(w), Some(g)) => {
            let g = read_value(&g);
            ensure!(g == w.erased(), "{what}: default {}", diff(&w.erased(), &g));
            o.ev("defaults compared");
            Ok(())
        }
        (Some(w), None) => Err(format!("{what}: no default, expected {}", short(w))),
        (None, Some(g)) => Err(format!("{what}: default {g:?}, expected none")),
    }
}

fn default_of_type<'a>(t: Type<'a>) -> (Option<Value>, bool) {
    match t {
        Type::Struct(x) => (x.default_value(), x.has_default_value()),
        Type::TupleStruct(x) => (x.default_value(), x.has_default_value()),
        Type::Tuple(x) => (x.default_value(), x.has_default_value()),
        Type::Enum(x) => (x.default_value(), x.has_default_value()),
        Type::List(x) => (Some(x.default_value()), x.has_default_value()),
        Type::Array(x) => (x.default_value(), x.has_default_value()),
        Type::Map(x) => (Some(x.default_value()), x.has_default_value()),
        Type::Scalar(x) => (Some(x.default_value()), x.has_default_value()),
        Type::Opaque(x) => (x.default_value(), x.has_default_value()),
    }
}

fn check_default_node(ty: &'static Ty, t: Type<'_>, o: &mut Obs) -> Res {
    if default_recurses(ty) {
        o.ev("types whose default contains itself (skipped)");
        return Ok(());
    }
    let want = default_of(ty);
    check_default(ty.name, &want, t.default_value(), t.has_default_value(), o)?;
    let (d, h) = default_of_type(t);
    check_default(ty.name, &want, d, h, o)?;
    if let Some(d) = t.default_value() {
        // and it is a value of the type
        match oracle::convert(ty, &want.clone().unwrap_or(M::Tuple(vec![]))) {
            Conv::Ok(m) => match (ty.ops.conv)(&d) {
                Some(x) => {
                    ensure!(x.model() == m, "{}: default converts to {}", ty.name, diff(&m, &x.model()));
                    o.ev("defaults converted");
                }
                None => return Err(format!("{}: the default {d:?} does not convert to the type", ty.name)),
            },
            Conv::Fail => {}
            Conv::Unspec => {}
        }
    }
    if let (K::Enum(vs), Type::Enum(e)) = (&ty.k, t) {
        for vt in vs {
            if vt.fields.iter().any(|f| default_recurses(f.ty())) {
                continue;
            }
            let what = format!("{}::{}", ty.name, vt.name);
            let want = default_of_variant(vt);
            let Some(v) = e.variant(vt.name) else { return Err(format!("{what} is missing")) };
            check_default(&what, &want, v.default_value(), v.has_default_value(), o)?;
            match v {
                Variant::Struct(x) => check_default(&what, &want, x.default_value(), x.has_default_value(), o)?,
                Variant::Tuple(x) => check_default(&what, &want, x.default_value(), x.has_default_value(), o)?,
                Variant::Unit(x) => check_default(&what, &want, Some(x.default_value()), x.has_default_value(), o)?,
            }
            if let Some(d) = v.default_value() {
                if let Some(Conv::Ok(m)) = want.as_ref().map(|w| oracle::convert(ty, w)) {
                    match (ty.ops.conv)(&d) {
                        Some(x) => ensure!(x.model() == m, "{what}: default converts to {}", diff(&m, &x.model())),
                        None => return Err(format!("{what}: the default {d:?} does not convert to the type")),
                    }
                }
            }
            o.ev("variant defaults compared");
        }
    }
    Ok(())
}

pub fn c13(cfg: &Cfg, reg: &Registry) -> Obs {
    each_type(cfg, reg, cfg.n(60, 1500), |o, r, ty| {
        o.note(|| format!("type {}", ty.name));
        let d = (ty.ops.desc)();
        if !default_recurses(ty) {
            check_default(ty.name, &default_of(ty), d.default_value(), d.has_default_value(), o)?;
        }
        // every node
        let mut seen: HashSet<*const Ty> = HashSet::new();
        let mut todo = vec![(ty, d.get_type())];
        while let Some((ty, t)) = todo.pop() {
            if !seen.insert(ty as *const Ty) {
                continue;
            }
            check_default_node(ty, t, o)?;
            for (_, a, b) in check_node(ty, t, o)? {
                todo.push((a, b));
            }
        }
        // paths
        for _ in 0..4 {
            let p = gen_type_path(r, ty, 10);
            o.seen(&(ty.name, &p));
            let what = format!("{} of {}", show_path(&p), ty.name);
            o.note(|| what.clone());
            match (nav_ty(ty, &p), d.type_at(&key_path(&p))) {
                (Some(TyPos::Ty(t)), Some(g)) if !default_recurses(t) => {
                    check_default(&what, &default_of(t), g.default_value(), g.has_default_value(), o)?;
                    o.ev("defaults at paths");
                }
                (Some(TyPos::Variant(t, i)), Some(g)) => {
                    if let K::Enum(vs) = &t.k {
                        if vs[i].fields.iter().all(|f| !default_recurses(f.ty())) {
                            check_default(&what, &default_of_variant(&vs[i]), g.default_value(), g.has_default_value(), o)?;
                            o.ev("defaults at paths");
                        }
                    }
                }
                (Some(_), None) => return Err(format!("{what}: no type there")),
                _ => {}
            }
        }
        // what a default becomes in the type and back
        if let Some(w) = default_of(ty).filter(|_| !default_recurses(ty)) {
            o.sample(|| format!("{} defaults to {}", ty.name, short(&w)));
        }
        Ok(())
    })
}

/// Number of levels of nesting.
fn depth(m: &M) -> usize {
    1 + m.children().iter().map(|c| depth(c)).max().unwrap_or(0)
}

fn recursive(ty: &'static Ty) -> bool {
    ty.parts().iter().any(|p| p.closure().iter().any(|x| std::ptr::eq(*x, ty)))
}

/// Some value model of the type, nested as deeply as asked where the type allows.
fn deep_model(r: &mut Rng, ty: &'static Ty, depth: usize) -> Option<M> {
    // which part leads back to a recursive type
    fn leads(ty: &'static Ty) -> bool {
        ty.closure().into_iter().any(recursive)
    }
    let fields = |r: &mut Rng, fs: &'static [FieldTy]| -> Option<Vec<M>> {
        let cands: Vec<usize> = (0..fs.len()).filter(|i| leads(fs[*i].ty())).collect();
        let at = if cands.is_empty() { usize::MAX } else { *r.pick(&cands) };
        fs.iter().enumerate().map(|(i, f)| if i == at { deep_model(r, f.ty(), depth.saturating_sub(1)) } else { small(r, f.ty()) }).collect()
    };
    if depth == 0 || !leads(ty) {
        return small(r, ty);
    }
    Some(match &ty.k {
        K::Struct(fs) => M::Struct(fs.iter().map(|f| f.name.unwrap_or("").to_owned()).zip(fields(r, fs)?).collect()),
        K::TupleStruct(fs) => M::TupleStruct(fields(r, fs)?),
        K::Tuple(fs) => M::Tuple(fields(r, fs)?),
        K::Enum(vs) => {
            let cands: Vec<&'static VariantTy> = vs.iter().filter(|v| v.fields.iter().any(|f| leads(f.ty()))).collect();
            let v = *r.pick(&cands);
            let xs = fields(r, &v.fields)?;
            M::Enum(
                v.name.to_owned(),
                match v.kind {
                    VK::Unit => F::Unit,
                    VK::Tuple => F::Tuple(xs),
                    VK::Struct => F::Struct(v.fields.iter().map(|f| f.name.unwrap_or("").to_owned()).zip(xs).collect()),
                },
            )
        }
        K::List(e) => {
            let mut v = vec![deep_model(r, e(), depth - 1)?];
            if r.chance(1, 4) {
                v.push(small(r, e())?);
            }
            M::List(v)
        }
        K::Array(e, n) => M::Array((0..*n).map(|i| if i == 0 { deep_model(r, e(), depth - 1) } else { small(r, e()) }).collect::<Option<Vec<_>>>()?),
        K::Map(k, v) => M::map(vec![(small(r, k())?, deep_model(r, v(), depth - 1)?)]),
        _ => return small(r, ty),
    })
}

fn small(r: &mut Rng, ty: &'static Ty) -> Option<M> {
    if !(ty.ops.possible)() {
        return None;
    }
    for _ in 0..8 {
        let m = (ty.ops.gen)(r, 0).model();
        if m.size() <= 40 {
            return Some(m);
        }
    }
    None
}

pub fn c15(cfg: &Cfg, reg: &Registry) -> Obs {
    let reg: Registry = reg
        .iter()
        .filter(|x| {
            // the declarations themselves, and containers of them
            guarded(|| (x.1)().closure().into_iter().any(recursive)).unwrap_or(false)
        })
        .cloned()
        .collect();
    let n = cfg.n(40, 400);
    let big = cfg.thorough;
    each_type(cfg, &reg, n, move |o, r, ty| {
        o.note(|| format!("type {}", ty.name));
        let d = (ty.ops.desc)();
        let nodes = check_type(ty, d.get_type(), o)?;
        o.evn("distinct types described", nodes as u64);
        o.ev("recursive types described");
        // going round the recursion
        let long = gen_long_path(r, ty, if big { 4000 } else { 600 });
        o.note(|| format!("type {} path of {} keys", ty.name, long.len()));
        o.seen(&(ty.name, &long));
        check_at(nav_ty(ty, &long), d.type_at(&key_path(&long)), &format!("a path of {} keys into {}", long.len(), ty.name), o)?;
        o.evn("keys of long type paths followed", long.len() as u64);
        if long.len() > 20 {
            let i = r.below(long.len());
            let mut bad = long.clone();
            bad[i] = PK::Name("no such field".into());
            check_at(None, d.type_at(&key_path(&bad)), "a long path with one wrong key", o)?;
        }
        // by hand, step by step
        let mut cur = (ty, d.get_type());
        for i in 0..60 {
            if i % 9 == 4 {
                check_descriptor(cur.0, &extracted(cur.1), o)?;
            }
            let kids: Vec<_> = check_node(cur.0, cur.1, o)?.into_iter().filter(|k| k.1.closure().into_iter().any(recursive)).collect();
            if kids.is_empty() {
                break;
            }
            let (_, a, b) = kids[r.below(kids.len())].clone();
            cur = (a, b);
            o.ev("levels walked");
        }
        let dd = *r.pick(&[3usize, 10, 30, 100, if big { 1500 } else { 300 }]);
        if let Some(m) = deep_model(r, ty, dd) {
            deep_value(o, r, ty, &m)?;
        }
        Ok(())
    })
}

fn gen_long_path(r: &mut Rng, ty: &'static Ty, max: usize) -> Vec<PK> {
    let leads = |t: &'static Ty| t.closure().into_iter().any(recursive);
    let mut out = vec![];
    let mut cur = ty;
    loop {
        if out.len() >= max || r.chance(1, max / 2 + 1) {
            break;
        }
        match &cur.k {
            K::Struct(fs) | K::TupleStruct(fs) | K::Tuple(fs) => {
                let c: Vec<usize> = (0..fs.len()).filter(|i| leads(fs[*i].ty())).collect();
                if c.is_empty() {
                    break;
                }
                let i = *r.pick(&c);
                out.push(match fs[i].name {
                    Some(n) => PK::Name(n.to_owned()),
                    None => PK::Num(i),
                });
                cur = fs[i].ty();
            }
            K::Enum(vs) => {
                let c: Vec<(&'static VariantTy, usize)> = vs.iter().flat_map(|v| (0..v.fields.len()).map(move |i| (v, i))).filter(|(v, i)| leads(v.fields[*i].ty())).collect();
                if c.is_empty() {
                    break;
                }
                let (v, i) = *r.pick(&c);
                out.push(PK::Variant(v.name.to_owned()));
                out.push(match v.fields[i].name {
                    Some(n) => PK::Name(n.to_owned()),
                    None => PK::Num(i),
                });
                cur = v.fields[i].ty();
            }
            K::List(e) | K::Array(e, _) if leads(e()) => {
                out.push(PK::Get(M::S(Sc::Usize(r.below(3)))));
                cur = e();
            }
            K::Map(_, v) if leads(v()) => {
                out.push(PK::Get(M::S(Sc::Usize(0))));
                cur = v();
            }
            _ => break,
        }
    }
    out
}

fn deep_value(o: &mut Obs, r: &mut Rng, ty: &'static Ty, m: &M) -> Res {
    let dp = depth(m);
    o.note(|| format!("type {} value nested {dp} levels: {}", ty.name, short(m)));
    o.seen(m);
    let dynamic = m.dynamic();
    let x = match (ty.ops.conv)(&dynamic) {
        Some(x) => x,
        None => match oracle::convert(ty, &m.erased()) {
            Conv::Ok(_) => return Err("a deep value does not convert".into()),
            _ => return Ok(()),
        },
    };
    let got = x.model();
    ensure!(got == *m, "deep value: {}", diff(m, &got));
    o.ev("deep values converted");
    o.evn("levels of deep values", dp as u64);
    let back = read_value(&x.r().to_value());
    ensure!(back == m.erased(), "deep value erased: {}", diff(&m.erased(), &back));
    let c = x.r().clone_reflect();
    let cm = read(&*c)?;
    ensure!(cm == m.shown(), "deep value copied: {}", diff(&m.shown(), &cm));
    let eq = mirror_mirror::reflect_eq(x.r(), &*c);
    if !m.has_nan() && !m.has_opaque() {
        ensure!(eq == Some(true), "a deep value compared with its copy: {eq:?}");
    }
    ensure!(x.r().type_descriptor().type_name() == ty.name, "the description of a deep value is called {}", x.r().type_descriptor().type_name());
    // the deepest reachable place
    let p = deep_path(m);
    let variants: Vec<PK> = p.clone();
    let kp = key_path(&variants);
    match (x.r().at(&kp), oracle::nav(Some(ty), m, &variants)) {
        (Some(v), Ok(Some((pt, part)))) => {
            let got = read(v)?;
            ensure!(got == part.shown(), "at {} keys: {}", p.len(), diff(&part.shown(), &got));
            if let Some(pt) = pt.filter(|t| !matches!(t.k, K::Any)) {
                match (ty.ops.desc)().type_at(&kp) {
                    Some(t) => ensure!(t.type_name() == pt.name, "type at {} keys is {} not {}", p.len(), t.type_name(), pt.name),
                    None => return Err(format!("no type at {} keys", p.len())),
                }
            }
            o.evn("keys followed in deep values", p.len() as u64);
        }
        (None, Ok(Some(_))) => return Err(format!("nothing at {} keys", p.len())),
        _ => {}
    }
    if r.chance(1, 2) {
        // a deep value made equal by patching
        let mut y = (ty.ops.gen)(r, 1);
        let ym = y.model();
        if let Some(w) = oracle::patch(Some(ty), &ym, m) {
            y.r_mut().patch(x.r());
            ensure!(y.model() == w, "patched with a deep value: {}", diff(&w, &y.model()));
            o.ev("patched with deep values");
        }
    }
    deep_mismatch(o, r, ty, m)
}

/// The same with its deepest part replaced.
fn with_deepest(m: &M, new: &M) -> M {
    fn go(m: &M, new: &M) -> M {
        let deepest = |xs: Vec<&M>| -> Option<usize> { (0..xs.len()).max_by_key(|i| xs[*i].size()) };
        let list = |v: &Vec<M>| -> Option<Vec<M>> {
            let i = deepest(v.iter().collect())?;
            Some(v.iter().enumerate().map(|(j, x)| if i == j { go(x, new) } else { x.clone() }).collect())
        };
        let named = |v: &Vec<(String, M)>| -> Option<Vec<(String, M)>> {
            let i = deepest(v.iter().map(|x| &x.1).collect())?;
            Some(v.iter().enumerate().map(|(j, (n, x))| (n.clone(), if i == j { go(x, new) } else { x.clone() })).collect())
        };
        match m {
            M::Struct(v) => named(v).map(M::Struct),
            M::Enum(n, F::Struct(v)) => named(v).map(|v| M::Enum(n.clone(), F::Struct(v))),
            M::Enum(n, F::Tuple(v)) => list(v).map(|v| M::Enum(n.clone(), F::Tuple(v))),
            M::TupleStruct(v) => list(v).map(M::TupleStruct),
            M::Tuple(v) => list(v).map(M::Tuple),
            M::List(v) => list(v).map(M::List),
            M::Array(v) => list(v).map(M::Array),
            M::Map(v) => deepest(v.iter().map(|x| &x.1).collect())
                .map(|i| M::map(v.iter().enumerate().map(|(j, (k, x))| (k.clone(), if i == j { go(x, new) } else { x.clone() })).collect())),
            _ => None,
        }
        .unwrap_or_else(|| new.clone())
    }
    go(m, new)
}

/// Everything that can be refused or found different only at the bottom of a deep value.
pub fn deep_mismatch(o: &mut Obs, r: &mut Rng, ty: &'static Ty, m: &M) -> Res {
    let other = [
        M::S(Sc::U8(r.u64() as u8)),
        M::str("something else"),
        M::Struct(vec![]),
        M::Enum("No such variant".into(), F::Unit),
        M::Tuple(vec![M::S(Sc::Bool(true))]),
        M::List(vec![M::S(Sc::Bool(false))]),
    ];
    let new = r.pick(&other);
    let broken = with_deepest(&m.erased(), new);
    o.seen(&broken);
    let dynamic = broken.dynamic();
    let want = oracle::convert(ty, &broken);
    match (want, (ty.ops.conv)(&dynamic)) {
        (Conv::Ok(w), Some(g)) => ensure!(g.model() == w, "a deep value with another bottom: {}", diff(&w, &g.model())),
        (Conv::Ok(_), None) => return Err("a deep value with another bottom that fits does not convert".into()),
        (Conv::Fail, Some(_)) => return Err("a deep value with a bottom that does not fit converts".into()),
        (Conv::Fail, None) => o.ev("refused at the bottom of a deep value"),
        (Conv::Unspec, _) => {}
    }
    let Some(mut x) = (ty.ops.conv)(&m.dynamic()) else { return Ok(()) };
    let before = x.model();
    if broken != m.erased() {
        crate::mon_conv::verdict(o, x.r(), &before, &dynamic, &broken, "deep values that differ at the bottom")?;
        o.ev("deep values differing at the bottom compared");
    }
    if let Some(w) = oracle::patch(Some(ty), &before, &broken) {
        x.r_mut().patch(&dynamic);
        ensure!(x.model() == w, "a deep value patched with one with another bottom: {}", diff(&w, &x.model()));
        o.ev("deep values patched with another bottom");
    }
    Ok(())
}

/// The path to the deepest part, variants spelled out.
fn deep_path(m: &M) -> Vec<PK> {
    let mut out = vec![];
    let mut cur = m;
    loop {
        let deepest = |xs: Vec<&M>| -> Option<usize> { (0..xs.len()).max_by_key(|i| xs[*i].size()) };
        match cur {
            M::Struct(v) | M::Enum(_, F::Struct(v)) => {
                if let M::Enum(n, _) = cur {
                    out.push(PK::Variant(n.clone()));
                }
                let Some(i) = deepest(v.iter().map(|x| &x.1).collect()) else { return out };
                out.push(PK::Name(v[i].0.clone()));
                cur = &v[i].1;
            }
            M::TupleStruct(v) | M::Tuple(v) | M::Enum(_, F::Tuple(v)) => {
                if let M::Enum(n, _) = cur {
                    out.push(PK::Variant(n.clone()));
                }
                let Some(i) = deepest(v.iter().collect()) else { return out };
                out.push(PK::Num(i));
                cur = &v[i];
            }
            M::List(v) | M::Array(v) => {
                let Some(i) = deepest(v.iter().collect()) else { return out };
                out.push(PK::Get(M::S(Sc::Usize(i))));
                cur = &v[i];
            }
            M::Map(v) => {
                let Some(i) = deepest(v.iter().map(|x| &x.1).collect()) else { return out };
                out.push(PK::Get(v[i].0.erased()));
                cur = &v[i].1;
            }
            M::Enum(n, F::Unit) => {
                out.push(PK::Variant(n.clone()));
                return out;
            }
            _ => return out,
        }
    }
}

/// A type for which the documented default (the first variant) does not exist.
#[derive(Debug, Clone, mirror_mirror::Reflect)]
pub enum Endless {
    Again(Box<Endless>),
    Stop,
}

/// Runs in a process of its own with a small stack: 0 if the questions are answered consistently, 1
/// if inconsistently, and dies if the stack overflows.
pub fn known_default_recursion() -> i32 {
    use mirror_mirror::{DescribeType, FromReflect};
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(|| {
            let d = <Endless as DescribeType>::type_descriptor();
            let has = d.has_default_value();
            let v = d.default_value();
            match v {
                Some(v) => has && Endless::from_reflect(&v).is_some(),
                None => !has,
            }
        })
        .expect("thread");
    match h.join() {
        Ok(true) => 0,
        Ok(false) => {
            println!("has_default_value and default_value disagree, or the default does not convert");
            1
        }
        Err(_) => {
            println!("asking for the default value panicked");
            1
        }
    }
}
