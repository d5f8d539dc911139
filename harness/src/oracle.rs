//! What the operations should do, computed on models and declared types only.

use mirror_mirror::key_path::{Key, KeyPath};
use std::time::Duration;

use crate::model::*;

fn both(a: bool, unspec: &mut bool, c: Conv) -> Option<M> {
    let _ = a;
    match c {
        Conv::Ok(m) => Some(m),
        Conv::Fail => None,
        Conv::Unspec => {
            *unspec = true;
            Some(M::Tuple(vec![]))
        }
    }
}

fn conv_field(f: &FieldTy, m: &M) -> Conv {
    match f.with {
        Some(w) => match w(m) {
            Some(m) => Conv::Ok(m),
            None => Conv::Fail,
        },
        None => convert(f.ty(), m),
    }
}

fn conv_named(fs: &[FieldTy], v: &[(String, M)], unspec: &mut bool) -> Option<Vec<(String, M)>> {
    let mut out = vec![];
    let mut failed = false;
    for f in fs {
        let name = f.name.unwrap_or("");
        match v.iter().find(|x| x.0 == name) {
            Some((_, m)) => match both(true, unspec, conv_field(f, m)) {
                Some(m) => out.push((name.to_owned(), m)),
                None => failed = true,
            },
            None => failed = true,
        }
    }
    if failed {
        None
    } else {
        Some(out)
    }
}

fn conv_pos(fs: &[FieldTy], v: &[M], unspec: &mut bool) -> Option<Vec<M>> {
    let mut out = vec![];
    let mut failed = false;
    for (i, f) in fs.iter().enumerate() {
        match v.get(i) {
            Some(m) => match both(true, unspec, conv_field(f, m)) {
                Some(m) => out.push(m),
                None => failed = true,
            },
            None => failed = true,
        }
    }
    if failed {
        None
    } else {
        Some(out)
    }
}

fn conv_all(ty: &Ty, v: &[M], unspec: &mut bool) -> Option<Vec<M>> {
    let mut out = vec![];
    let mut failed = false;
    for m in v {
        match both(true, unspec, convert(ty, m)) {
            Some(m) => out.push(m),
            None => failed = true,
        }
    }
    if failed {
        None
    } else {
        Some(out)
    }
}

/// Conversion of `m` to `ty`.
pub fn convert(ty: &Ty, m: &M) -> Conv {
    if let Some(c) = ty.custom {
        return c(m);
    }
    let mut unspec = false;
    let res: Option<M> = match (&ty.k, m) {
        (K::Scalar(k), M::S(s)) if s.kind() == *k => Some(m.clone()),
        (K::Scalar(_), _) => None,
        (K::Via(..), M::Via(n, _)) if *n == ty.name => Some(m.clone()),
        (K::Via(_, ok), M::S(s)) if ok(s) => {
            let s = if ty.name == std::any::type_name::<Duration>() {
                match s {
                    Sc::F32(b) => match Duration::try_from_secs_f32(f32::from_bits(*b)) {
                        // durations that no `f32` stands for exactly have no model
                        Ok(d) if Duration::try_from_secs_f32(d.as_secs_f32()) == Ok(d) => {
                            Sc::F32(d.as_secs_f32().to_bits())
                        }
                        _ => return Conv::Unspec,
                    },
                    _ => s.clone(),
                }
            } else {
                s.clone()
            };
            Some(M::Via(ty.name, s))
        }
        (K::Via(..), _) => None,
        (K::Any, m) => Some(m.erased()),
        (K::Opaque(_), _) => return Conv::Unspec,
        (K::Struct(fs), M::Struct(v)) => conv_named(fs, v, &mut unspec).map(M::Struct),
        (K::TupleStruct(fs), M::TupleStruct(v)) => conv_pos(fs, v, &mut unspec).map(M::TupleStruct),
        (K::Tuple(fs), M::Tuple(v)) => conv_pos(fs, v, &mut unspec).map(M::Tuple),
        (K::Enum(vs), M::Enum(n, f)) => match vs.iter().find(|v| v.name == n) {
            None => None,
            Some(v) => match (v.kind, f) {
                (VK::Unit, F::Unit) => Some(m.clone()),
                (VK::Tuple, F::Tuple(x)) => {
                    conv_pos(&v.fields, x, &mut unspec).map(|x| M::Enum(n.clone(), F::Tuple(x)))
                }
                (VK::Struct, F::Struct(x)) => {
                    conv_named(&v.fields, x, &mut unspec).map(|x| M::Enum(n.clone(), F::Struct(x)))
                }
                _ => return Conv::Unspec,
            },
        },
        (K::List(t), M::List(v)) => conv_all(t(), v, &mut unspec).map(M::List),
        (K::Array(t, n), M::List(v) | M::Array(v)) => {
            let r = conv_all(t(), v, &mut unspec);
            if v.len() != *n {
                None
            } else {
                r.map(M::Array)
            }
        }
        (K::Map(k, t), M::Map(v)) => {
            let keys: Vec<M> = v.iter().map(|x| x.0.clone()).collect();
            let vals: Vec<M> = v.iter().map(|x| x.1.clone()).collect();
            let ks = conv_all(k(), &keys, &mut unspec);
            let vs = conv_all(t(), &vals, &mut unspec);
            match (ks, vs) {
                (Some(ks), Some(vs)) => {
                    let mut seen = std::collections::BTreeSet::new();
                    for k in &ks {
                        if !seen.insert(k.canon()) {
                            unspec = true;
                        }
                    }
                    Some(M::map(ks.into_iter().zip(vs).collect()))
                }
                _ => None,
            }
        }
        _ => None,
    };
    match res {
        None => Conv::Fail,
        Some(_) if unspec => Conv::Unspec,
        Some(m) => Conv::Ok(m),
    }
}

/// Result of patching a value of type `ty` (`None`: a dynamic value). `None` if not specified.
pub fn patch(ty: Option<&Ty>, target: &M, src: &M) -> Option<M> {
    let ty = match ty {
        None => return patch_dyn(target, src),
        Some(ty) => ty,
    };
    if ty.custom.is_some() && matches!(ty.k, K::Opaque(_)) {
        return match convert(ty, src) {
            Conv::Ok(m) => Some(m),
            Conv::Fail => Some(target.clone()),
            Conv::Unspec => None,
        };
    }
    Some(match (&ty.k, target, src) {
        (K::Any, ..) => return patch_dyn(target, src),
        (K::Scalar(k), _, M::S(s)) if s.kind() == *k => src.clone(),
        (K::Via(..), ..) => match convert(ty, src) {
            Conv::Ok(m) => m,
            Conv::Fail => target.clone(),
            Conv::Unspec => return None,
        },
        (K::Struct(fs), M::Struct(t), M::Struct(s)) => M::Struct(patch_named(Some(fs), t, s)?),
        (K::TupleStruct(fs), M::TupleStruct(t), M::TupleStruct(s)) => {
            M::TupleStruct(patch_pos(Some(fs), t, s)?)
        }
        (K::Tuple(fs), M::Tuple(t), M::Tuple(s)) => M::Tuple(patch_pos(Some(fs), t, s)?),
        (K::Enum(vs), M::Enum(tn, tf), M::Enum(sn, sf)) => match convert(ty, src) {
            Conv::Ok(m) => m,
            Conv::Unspec => return None,
            Conv::Fail => {
                if tn != sn {
                    return Some(target.clone());
                }
                let v = vs.iter().find(|v| v.name == tn)?;
                match (tf, sf) {
                    (F::Unit, _) => target.clone(),
                    (F::Tuple(t), F::Tuple(s)) => {
                        M::Enum(tn.clone(), F::Tuple(patch_pos(Some(&v.fields), t, s)?))
                    }
                    (F::Struct(t), F::Struct(s)) => {
                        M::Enum(tn.clone(), F::Struct(patch_named(Some(&v.fields), t, s)?))
                    }
                    _ => return None,
                }
            }
        },
        (K::List(e), M::List(t), M::List(s)) => M::List(patch_elems(Some(e()), t, s)?),
        (K::Array(e, _), M::Array(t), M::List(s) | M::Array(s)) => {
            M::Array(patch_elems(Some(e()), t, s)?)
        }
        (K::Map(k, e), M::Map(t), M::Map(s)) => {
            let mut t = t.clone();
            let mut hit = vec![];
            for (sk, sv) in s {
                match convert(k(), sk) {
                    Conv::Unspec => return None,
                    Conv::Fail => {}
                    Conv::Ok(sk) => {
                        let c = sk.canon();
                        if hit.contains(&c) {
                            return None;
                        }
                        if let Some(x) = t.iter_mut().find(|x| x.0.canon() == c) {
                            x.1 = patch(Some(e()), &x.1, sv)?;
                        }
                        hit.push(c);
                    }
                }
            }
            M::map(t)
        }
        _ => target.clone(),
    })
}

fn patch_named(fs: Option<&Vec<FieldTy>>, t: &[(String, M)], s: &[(String, M)]) -> Option<Vec<(String, M)>> {
    t.iter()
        .map(|(n, x)| {
            let ty = fs.and_then(|fs| fs.iter().find(|f| f.name == Some(n))).map(|f| f.ty());
            Some((
                n.clone(),
                match s.iter().find(|y| y.0 == *n) {
                    Some((_, y)) => patch(ty, x, y)?,
                    None => x.clone(),
                },
            ))
        })
        .collect()
}

fn patch_pos(fs: Option<&Vec<FieldTy>>, t: &[M], s: &[M]) -> Option<Vec<M>> {
    t.iter()
        .enumerate()
        .map(|(i, x)| {
            let ty = fs.and_then(|fs| fs.get(i)).map(|f| f.ty());
            Some(match s.get(i) {
                Some(y) => patch(ty, x, y)?,
                None => x.clone(),
            })
        })
        .collect()
}

fn patch_elems(ty: Option<&Ty>, t: &[M], s: &[M]) -> Option<Vec<M>> {
    t.iter()
        .enumerate()
        .map(|(i, x)| match s.get(i) {
            Some(y) => patch(ty, x, y),
            None => Some(x.clone()),
        })
        .collect()
}

fn patch_dyn(target: &M, src: &M) -> Option<M> {
    Some(match (target, src) {
        (M::S(a), M::S(b)) if a.kind() == b.kind() => src.clone(),
        (M::Struct(t), M::Struct(s)) => M::Struct(patch_named(None, t, s)?),
        (M::TupleStruct(t), M::TupleStruct(s)) => M::TupleStruct(patch_pos(None, t, s)?),
        (M::Tuple(t), M::Tuple(s)) => M::Tuple(patch_pos(None, t, s)?),
        (M::Enum(tn, tf), M::Enum(sn, sf)) => {
            if tn != sn {
                return Some(src.erased());
            }
            match (tf, sf) {
                (F::Unit, _) => target.clone(),
                (F::Tuple(t), F::Tuple(s)) => M::Enum(tn.clone(), F::Tuple(patch_pos(None, t, s)?)),
                (F::Struct(t), F::Struct(s)) => {
                    M::Enum(tn.clone(), F::Struct(patch_named(None, t, s)?))
                }
                (_, F::Unit) => target.clone(),
                _ => return None,
            }
        }
        (M::List(t), M::List(s)) => M::List(patch_elems(None, t, s)?),
        (M::Map(t), M::Map(s)) => {
            let mut t = t.clone();
            for (sk, sv) in s {
                let c = sk.as_key();
                if let Some(x) = t.iter_mut().find(|x| x.0.as_key() == c) {
                    x.1 = patch_dyn(&x.1, sv)?;
                }
            }
            M::map(t)
        }
        _ => target.clone(),
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Equal,
    Unequal,
    /// Opaque values are involved: never equal.
    Opaque,
    Unspec,
}

/// Structural equality through reflection.
pub fn equal(a: &M, b: &M) -> Verdict {
    if opaque_keys(a) || opaque_keys(b) {
        return Verdict::Unspec;
    }
    if a.has_opaque() || b.has_opaque() {
        return Verdict::Opaque;
    }
    // keys that differ only in the order of their fields are not documented
    let x = eq(a, b, &|k| k.as_key());
    let y = eq(a, b, &|k| sort_fields(&k.as_key()));
    match (x, y) {
        (true, true) => Verdict::Equal,
        (false, false) => Verdict::Unequal,
        _ => Verdict::Unspec,
    }
}

fn opaque_keys(m: &M) -> bool {
    match m {
        M::Map(v) => v.iter().any(|(k, x)| k.has_opaque() || opaque_keys(x)),
        _ => m.children().iter().any(|c| opaque_keys(c)),
    }
}

/// The same with all named fields sorted by name.
pub fn sort_fields(m: &M) -> M {
    let many = |v: &Vec<M>| v.iter().map(sort_fields).collect::<Vec<_>>();
    let named = |v: &Vec<(String, M)>| {
        let mut v = v.iter().map(|(n, x)| (n.clone(), sort_fields(x))).collect::<Vec<_>>();
        v.sort();
        v
    };
    match m {
        M::S(_) | M::Via(..) | M::Opaque(..) | M::Enum(_, F::Unit) => m.clone(),
        M::TupleStruct(v) => M::TupleStruct(many(v)),
        M::Tuple(v) => M::Tuple(many(v)),
        M::List(v) => M::List(many(v)),
        M::Array(v) => M::Array(many(v)),
        M::Enum(n, F::Tuple(v)) => M::Enum(n.clone(), F::Tuple(many(v))),
        M::Struct(v) => M::Struct(named(v)),
        M::Enum(n, F::Struct(v)) => M::Enum(n.clone(), F::Struct(named(v))),
        M::Map(v) => M::map(v.iter().map(|(k, x)| (sort_fields(k), sort_fields(x))).collect()),
    }
}

type KeyOf<'a> = &'a dyn Fn(&M) -> M;

fn eq_named(a: &[(String, M)], b: &[(String, M)], key: KeyOf<'_>) -> bool {
    a.len() == b.len()
        && a.iter().all(|(n, x)| b.iter().find(|y| y.0 == *n).map_or(false, |y| eq(x, &y.1, key)))
}

fn eq_pos(a: &[M], b: &[M], key: KeyOf<'_>) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(x, y, key))
}

fn eq(a: &M, b: &M, key: KeyOf<'_>) -> bool {
    match (a, b) {
        (M::S(a) | M::Via(_, a), M::S(b) | M::Via(_, b)) => a.native_eq(b),
        (M::Struct(a), M::Struct(b)) => eq_named(a, b, key),
        (M::TupleStruct(a), M::TupleStruct(b))
        | (M::Tuple(a), M::Tuple(b))
        | (M::List(a), M::List(b))
        | (M::Array(a), M::Array(b)) => eq_pos(a, b, key),
        (M::Enum(n, f), M::Enum(m, g)) => {
            n == m
                && match (f, g) {
                    (F::Unit, F::Unit) => true,
                    (F::Tuple(a), F::Tuple(b)) => eq_pos(a, b, key),
                    (F::Struct(a), F::Struct(b)) => eq_named(a, b, key),
                    _ => false,
                }
        }
        (M::Map(a), M::Map(b)) => {
            let index: std::collections::HashMap<M, &M> = b.iter().map(|x| (key(&x.0), &x.1)).collect();
            a.len() == b.len()
                && a.iter().all(|(k, v)| index.get(&key(k)).map_or(false, |x| eq(v, x, key)))
        }
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------
// paths

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum PK {
    Name(String),
    Num(usize),
    Get(M),
    Variant(String),
}

impl PK {
    pub fn key(&self) -> Key {
        match self {
            PK::Name(n) => Key::named_field(n.clone()),
            PK::Num(i) => Key::numbered_field(*i),
            PK::Get(m) => Key::get(m.dynamic()),
            PK::Variant(n) => Key::variant(n.clone()),
        }
    }
}

pub fn key_path(p: &[PK]) -> KeyPath {
    p.iter().map(|k| k.key()).collect()
}

pub fn show_path(p: &[PK]) -> String {
    let mut s = String::from("$");
    for k in p {
        match k {
            PK::Name(n) => s.push_str(&format!(".{n:?}")),
            PK::Num(i) => s.push_str(&format!(".{i}")),
            PK::Get(m) => s.push_str(&format!("[{}]", short(m))),
            PK::Variant(n) => s.push_str(&format!("::{n:?}")),
        }
    }
    s
}

pub struct Unspecified;

fn step<'a>(ty: Option<&'static Ty>, m: &'a M, k: &PK) -> Result<Option<(Option<&'static Ty>, &'a M)>, Unspecified> {
    let ty = ty.filter(|t| !matches!(t.k, K::Any));
    Ok(match (k, m) {
        (PK::Name(n), M::Struct(v) | M::Enum(_, F::Struct(v))) => {
            match v.iter().position(|x| x.0 == *n) {
                None => None,
                Some(i) => Some((child_ty(ty, m, Some(n), i), &v[i].1)),
            }
        }
        (PK::Num(i), M::TupleStruct(v) | M::Tuple(v) | M::Enum(_, F::Tuple(v))) => {
            v.get(*i).map(|x| (child_ty(ty, m, None, *i), x))
        }
        (PK::Get(M::S(s)), M::List(v) | M::Array(v)) => match s.as_index() {
            Some(i) => v.get(i).map(|x| (child_ty(ty, m, None, i), x)),
            None => None,
        },
        (PK::Get(key), M::Map(v)) => {
            let c = match ty.map(|t| &t.k) {
                Some(K::Map(kt, _)) => match convert(kt(), key) {
                    Conv::Ok(k) => Some(k.canon()),
                    Conv::Fail => return Ok(None),
                    Conv::Unspec => return Err(Unspecified),
                },
                _ => None,
            };
            let found = match c {
                Some(c) => v.iter().find(|x| x.0.canon() == c),
                None => {
                    let c = key.as_key();
                    v.iter().find(|x| x.0.as_key() == c)
                }
            };
            let vt = match ty.map(|t| &t.k) {
                Some(K::Map(_, vt)) => Some(vt()),
                _ => None,
            };
            found.map(|x| (vt, &x.1))
        }
        (PK::Variant(n), M::Enum(name, _)) => {
            if n == name {
                Some((ty, m))
            } else {
                None
            }
        }
        _ => None,
    })
}

fn child_ty(ty: Option<&'static Ty>, m: &M, name: Option<&str>, i: usize) -> Option<&'static Ty> {
    let pick = |fs: &'static Vec<FieldTy>| match name {
        Some(n) => fs.iter().find(|f| f.name == Some(n)).map(|f| f.ty()),
        None => fs.get(i).map(|f| f.ty()),
    };
    match &ty?.k {
        K::Struct(fs) | K::TupleStruct(fs) | K::Tuple(fs) => pick(fs),
        K::Enum(vs) => match m {
            M::Enum(n, _) => vs.iter().find(|v| v.name == n).and_then(|v| pick(&v.fields)),
            _ => None,
        },
        K::List(t) | K::Array(t, _) => Some(t()),
        _ => None,
    }
}

/// The part of `m` the path reaches, and its declared type if it has one.
pub fn nav<'a>(ty: Option<&'static Ty>, m: &'a M, p: &[PK]) -> Result<Option<(Option<&'static Ty>, &'a M)>, Unspecified> {
    let mut cur = (ty, m);
    for k in p {
        match step(cur.0, cur.1, k)? {
            Some(x) => cur = x,
            None => return Ok(None),
        }
    }
    Ok(Some(cur))
}

/// `root` with the part at address `part` (a reference into `root`) replaced.
pub fn replace_part(root: &M, part: &M, new: &M) -> M {
    if std::ptr::eq(root, part) {
        return new.clone();
    }
    let many = |v: &Vec<M>| v.iter().map(|x| replace_part(x, part, new)).collect::<Vec<_>>();
    let named = |v: &Vec<(String, M)>| {
        v.iter().map(|(n, x)| (n.clone(), replace_part(x, part, new))).collect::<Vec<_>>()
    };
    match root {
        M::S(_) | M::Via(..) | M::Opaque(..) | M::Enum(_, F::Unit) => root.clone(),
        M::TupleStruct(v) => M::TupleStruct(many(v)),
        M::Tuple(v) => M::Tuple(many(v)),
        M::List(v) => M::List(many(v)),
        M::Array(v) => M::Array(many(v)),
        M::Struct(v) => M::Struct(named(v)),
        M::Enum(n, F::Tuple(v)) => M::Enum(n.clone(), F::Tuple(many(v))),
        M::Enum(n, F::Struct(v)) => M::Enum(n.clone(), F::Struct(named(v))),
        M::Map(v) => M::map(v.iter().map(|(k, x)| (k.clone(), replace_part(x, part, new))).collect()),
    }
}

#[derive(Clone, Copy)]
pub enum TyPos {
    Ty(&'static Ty),
    Variant(&'static Ty, usize),
}

/// What the path means on the type alone.
pub fn nav_ty(ty: &'static Ty, p: &[PK]) -> Option<TyPos> {
    let mut cur = TyPos::Ty(ty);
    for k in p {
        cur = match (k, cur) {
            (PK::Name(n), TyPos::Ty(t)) => match &t.k {
                K::Struct(fs) => TyPos::Ty(fs.iter().find(|f| f.name == Some(n))?.ty()),
                _ => return None,
            },
            (PK::Name(n), TyPos::Variant(t, i)) => match &t.k {
                K::Enum(vs) if vs[i].kind == VK::Struct => {
                    TyPos::Ty(vs[i].fields.iter().find(|f| f.name == Some(n))?.ty())
                }
                _ => return None,
            },
            (PK::Num(n), TyPos::Ty(t)) => match &t.k {
                K::TupleStruct(fs) | K::Tuple(fs) => TyPos::Ty(fs.get(*n)?.ty()),
                _ => return None,
            },
            (PK::Num(n), TyPos::Variant(t, i)) => match &t.k {
                K::Enum(vs) if vs[i].kind == VK::Tuple => TyPos::Ty(vs[i].fields.get(*n)?.ty()),
                _ => return None,
            },
            (PK::Get(m), TyPos::Ty(t)) => match &t.k {
                K::List(e) | K::Array(e, _) => match m {
                    M::S(s) => {
                        s.as_index()?;
                        TyPos::Ty(e())
                    }
                    _ => return None,
                },
                K::Map(_, v) => TyPos::Ty(v()),
                _ => return None,
            },
            (PK::Variant(n), TyPos::Ty(t)) => match &t.k {
                K::Enum(vs) => TyPos::Variant(t, vs.iter().position(|v| v.name == n)?),
                _ => return None,
            },
            (PK::Variant(n), TyPos::Variant(t, i)) => match &t.k {
                K::Enum(vs) if vs[i].name == n => cur,
                _ => return None,
            },
            (PK::Get(_), TyPos::Variant(..)) => return None,
        };
    }
    Some(cur)
}

/// The documented default value of a type (in dynamic form).
pub fn default_of(ty: &Ty) -> Option<M> {
    match &ty.k {
        K::Scalar(k) => Some(M::S(match k {
            SK::Usize => Sc::Usize(0),
            SK::U8 => Sc::U8(0),
            SK::U16 => Sc::U16(0),
            SK::U32 => Sc::U32(0),
            SK::U64 => Sc::U64(0),
            SK::U128 => Sc::U128(0),
            SK::I8 => Sc::I8(0),
            SK::I16 => Sc::I16(0),
            SK::I32 => Sc::I32(0),
            SK::I64 => Sc::I64(0),
            SK::I128 => Sc::I128(0),
            SK::Bool => Sc::Bool(false),
            SK::Char => Sc::Char('\0'),
            SK::F32 => Sc::F32(0),
            SK::F64 => Sc::F64(0),
            SK::Str => Sc::Str(String::new()),
        })),
        K::Via(..) | K::Any => None,
        K::Opaque(d) => d.clone(),
        K::Struct(fs) => default_named(fs).map(M::Struct),
        K::TupleStruct(fs) => default_pos(fs).map(M::TupleStruct),
        K::Tuple(fs) => default_pos(fs).map(M::Tuple),
        K::Enum(vs) => vs.first().and_then(default_of_variant),
        K::List(_) => Some(M::List(vec![])),
        K::Map(..) => Some(M::Map(vec![])),
        K::Array(t, n) => {
            if *n == 0 {
                return Some(M::List(vec![]));
            }
            let d = default_of(t())?;
            Some(M::List(vec![d; *n]))
        }
    }
}

pub fn default_of_variant(v: &VariantTy) -> Option<M> {
    Some(M::Enum(
        v.name.to_owned(),
        match v.kind {
            VK::Unit => F::Unit,
            VK::Tuple => F::Tuple(default_pos(&v.fields)?),
            VK::Struct => F::Struct(default_named(&v.fields)?),
        },
    ))
}

fn default_named(fs: &[FieldTy]) -> Option<Vec<(String, M)>> {
    fs.iter().map(|f| Some((f.name.unwrap_or("").to_owned(), default_of(f.ty())?))).collect()
}

fn default_pos(fs: &[FieldTy]) -> Option<Vec<M>> {
    fs.iter().map(|f| default_of(f.ty())).collect()
}

/// Whether computing the default would recurse into the type itself.
pub fn default_recurses(ty: &'static Ty) -> bool {
    fn go(ty: &'static Ty, path: &mut Vec<*const Ty>) -> bool {
        if path.contains(&(ty as *const Ty)) {
            return true;
        }
        path.push(ty);
        let r = match &ty.k {
            K::Struct(fs) | K::TupleStruct(fs) | K::Tuple(fs) => fs.iter().any(|f| go(f.ty(), path)),
            K::Enum(vs) => vs.first().map_or(false, |v| v.fields.iter().any(|f| go(f.ty(), path))),
            K::Array(t, n) => *n > 0 && go(t(), path),
            _ => false,
        };
        path.pop();
        r
    }
    go(ty, &mut vec![])
}
