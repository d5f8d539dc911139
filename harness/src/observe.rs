//! Reads values back through the library's views into models.

use mirror_mirror::enum_::{VariantField, VariantKind};
use mirror_mirror::{Array, Enum, Map, Reflect, ReflectRef, ScalarMut, ScalarOwned, ScalarRef, Struct, Tuple, TupleStruct, Value};

use crate::model::*;
use crate::zoo::{Opq, OpqD};

pub fn scalar_ref(s: &ScalarRef<'_>) -> Sc {
    match s {
        ScalarRef::usize(x) => Sc::Usize(*x),
        ScalarRef::u8(x) => Sc::U8(*x),
        ScalarRef::u16(x) => Sc::U16(*x),
        ScalarRef::u32(x) => Sc::U32(*x),
        ScalarRef::u64(x) => Sc::U64(*x),
        ScalarRef::u128(x) => Sc::U128(*x),
        ScalarRef::i8(x) => Sc::I8(*x),
        ScalarRef::i16(x) => Sc::I16(*x),
        ScalarRef::i32(x) => Sc::I32(*x),
        ScalarRef::i64(x) => Sc::I64(*x),
        ScalarRef::i128(x) => Sc::I128(*x),
        ScalarRef::bool(x) => Sc::Bool(*x),
        ScalarRef::char(x) => Sc::Char(*x),
        ScalarRef::f32(x) => Sc::F32(x.to_bits()),
        ScalarRef::f64(x) => Sc::F64(x.to_bits()),
        ScalarRef::String(x) => Sc::Str((*x).clone()),
    }
}

pub fn scalar_owned(s: &ScalarOwned) -> Sc {
    match s {
        ScalarOwned::usize(x) => Sc::Usize(*x),
        ScalarOwned::u8(x) => Sc::U8(*x),
        ScalarOwned::u16(x) => Sc::U16(*x),
        ScalarOwned::u32(x) => Sc::U32(*x),
        ScalarOwned::u64(x) => Sc::U64(*x),
        ScalarOwned::u128(x) => Sc::U128(*x),
        ScalarOwned::i8(x) => Sc::I8(*x),
        ScalarOwned::i16(x) => Sc::I16(*x),
        ScalarOwned::i32(x) => Sc::I32(*x),
        ScalarOwned::i64(x) => Sc::I64(*x),
        ScalarOwned::i128(x) => Sc::I128(*x),
        ScalarOwned::bool(x) => Sc::Bool(*x),
        ScalarOwned::char(x) => Sc::Char(*x),
        ScalarOwned::f32(x) => Sc::F32(x.to_bits()),
        ScalarOwned::f64(x) => Sc::F64(x.to_bits()),
        ScalarOwned::String(x) => Sc::Str(x.clone()),
    }
}

pub fn scalar_mut(s: &ScalarMut<'_>) -> Sc {
    match s {
        ScalarMut::usize(x) => Sc::Usize(**x),
        ScalarMut::u8(x) => Sc::U8(**x),
        ScalarMut::u16(x) => Sc::U16(**x),
        ScalarMut::u32(x) => Sc::U32(**x),
        ScalarMut::u64(x) => Sc::U64(**x),
        ScalarMut::u128(x) => Sc::U128(**x),
        ScalarMut::i8(x) => Sc::I8(**x),
        ScalarMut::i16(x) => Sc::I16(**x),
        ScalarMut::i32(x) => Sc::I32(**x),
        ScalarMut::i64(x) => Sc::I64(**x),
        ScalarMut::i128(x) => Sc::I128(**x),
        ScalarMut::bool(x) => Sc::Bool(**x),
        ScalarMut::char(x) => Sc::Char(**x),
        ScalarMut::f32(x) => Sc::F32(x.to_bits()),
        ScalarMut::f64(x) => Sc::F64(x.to_bits()),
        ScalarMut::String(x) => Sc::Str((*x).clone()),
    }
}

pub fn scalar_assign(m: ScalarMut<'_>, s: &Sc) -> bool {
    match (m, s) {
        (ScalarMut::usize(x), Sc::Usize(y)) => *x = *y,
        (ScalarMut::u8(x), Sc::U8(y)) => *x = *y,
        (ScalarMut::u16(x), Sc::U16(y)) => *x = *y,
        (ScalarMut::u32(x), Sc::U32(y)) => *x = *y,
        (ScalarMut::u64(x), Sc::U64(y)) => *x = *y,
        (ScalarMut::u128(x), Sc::U128(y)) => *x = *y,
        (ScalarMut::i8(x), Sc::I8(y)) => *x = *y,
        (ScalarMut::i16(x), Sc::I16(y)) => *x = *y,
        (ScalarMut::i32(x), Sc::I32(y)) => *x = *y,
        (ScalarMut::i64(x), Sc::I64(y)) => *x = *y,
        (ScalarMut::i128(x), Sc::I128(y)) => *x = *y,
        (ScalarMut::bool(x), Sc::Bool(y)) => *x = *y,
        (ScalarMut::char(x), Sc::Char(y)) => *x = *y,
        (ScalarMut::f32(x), Sc::F32(y)) => *x = f32::from_bits(*y),
        (ScalarMut::f64(x), Sc::F64(y)) => *x = f64::from_bits(*y),
        (ScalarMut::String(x), Sc::Str(y)) => *x = y.clone(),
        _ => return false,
    }
    true
}

pub fn scalar_to_owned(s: &Sc) -> ScalarOwned {
    match s.clone() {
        Sc::Usize(x) => ScalarOwned::usize(x),
        Sc::U8(x) => ScalarOwned::u8(x),
        Sc::U16(x) => ScalarOwned::u16(x),
        Sc::U32(x) => ScalarOwned::u32(x),
        Sc::U64(x) => ScalarOwned::u64(x),
        Sc::U128(x) => ScalarOwned::u128(x),
        Sc::I8(x) => ScalarOwned::i8(x),
        Sc::I16(x) => ScalarOwned::i16(x),
        Sc::I32(x) => ScalarOwned::i32(x),
        Sc::I64(x) => ScalarOwned::i64(x),
        Sc::I128(x) => ScalarOwned::i128(x),
        Sc::Bool(x) => ScalarOwned::bool(x),
        Sc::Char(x) => ScalarOwned::char(x),
        Sc::F32(x) => ScalarOwned::f32(f32::from_bits(x)),
        Sc::F64(x) => ScalarOwned::f64(f64::from_bits(x)),
        Sc::Str(x) => ScalarOwned::String(x),
    }
}

type R<T> = Result<T, String>;

pub fn read_struct(s: &dyn Struct) -> R<Vec<(String, M)>> {
    let mut out = vec![];
    let mut it = s.fields();
    loop {
        let left = it.len();
        match it.next() {
            Some((n, v)) => {
                if left == 0 {
                    return Err("struct iterator claims to be exhausted but yields a field".into());
                }
                out.push((n.to_owned(), read(v)?));
            }
            None => {
                if left != 0 {
                    return Err(format!("struct iterator claims {left} more fields but ends"));
                }
                break;
            }
        }
    }
    if out.len() != s.fields_len() {
        return Err(format!("fields_len {} but {} fields iterated", s.fields_len(), out.len()));
    }
    Ok(out)
}

pub fn read_tuple_struct(s: &dyn TupleStruct) -> R<Vec<M>> {
    let out = s.fields().map(read).collect::<R<Vec<_>>>()?;
    if out.len() != s.fields_len() {
        return Err(format!("fields_len {} but {} fields iterated", s.fields_len(), out.len()));
    }
    Ok(out)
}

pub fn read_tuple(s: &dyn Tuple) -> R<Vec<M>> {
    let out = s.fields().map(read).collect::<R<Vec<_>>>()?;
    if out.len() != s.fields_len() {
        return Err(format!("fields_len {} but {} fields iterated", s.fields_len(), out.len()));
    }
    Ok(out)
}

pub fn read_enum(s: &dyn Enum) -> R<(String, F)> {
    let name = s.variant_name().to_owned();
    let f = match s.variant_kind() {
        VariantKind::Unit => {
            if s.fields().next().is_some() {
                return Err("unit variant yields fields".into());
            }
            F::Unit
        }
        VariantKind::Tuple => {
            let mut out = vec![];
            for f in s.fields() {
                match f {
                    VariantField::Tuple(v) => out.push(read(v)?),
                    VariantField::Struct(..) => return Err("named field in tuple variant".into()),
                }
            }
            F::Tuple(out)
        }
        VariantKind::Struct => {
            let mut out = vec![];
            for f in s.fields() {
                match f {
                    VariantField::Struct(n, v) => out.push((n.to_owned(), read(v)?)),
                    VariantField::Tuple(..) => return Err("unnamed field in struct variant".into()),
                }
            }
            F::Struct(out)
        }
    };
    let n = match &f {
        F::Unit => 0,
        F::Tuple(v) => v.len(),
        F::Struct(v) => v.len(),
    };
    if n != s.fields_len() {
        return Err(format!("variant fields_len {} but {} fields iterated", s.fields_len(), n));
    }
    Ok((name, f))
}

pub fn read_array(s: &dyn Array) -> R<Vec<M>> {
    let out = s.iter().map(read).collect::<R<Vec<_>>>()?;
    if out.len() != s.len() {
        return Err(format!("len {} but {} elements iterated", s.len(), out.len()));
    }
    if s.is_empty() != out.is_empty() {
        return Err("is_empty disagrees with the elements".into());
    }
    Ok(out)
}

pub fn read_map(s: &dyn Map) -> R<Vec<(M, M)>> {
    let mut out = vec![];
    for (k, v) in s.iter() {
        out.push((read(k)?, read(v)?));
    }
    if out.len() != s.len() {
        return Err(format!("len {} but {} entries iterated", s.len(), out.len()));
    }
    if s.is_empty() != out.is_empty() {
        return Err("is_empty disagrees with the entries".into());
    }
    Ok(out)
}

pub fn read_opaque(r: &dyn Reflect) -> R<M> {
    if let Some(x) = r.downcast_ref::<Opq>() {
        return Ok(M::Opaque(std::any::type_name::<Opq>(), x.0));
    }
    if let Some(x) = r.downcast_ref::<OpqD>() {
        return Ok(M::Opaque(std::any::type_name::<OpqD>(), x.0));
    }
    Err(format!("unexpectedly opaque: {}", r.type_name()))
}

/// Everything visible through the shared views. Equals `model().shown()`.
pub fn read(r: &dyn Reflect) -> R<M> {
    Ok(match r.reflect_ref() {
        ReflectRef::Struct(s) => M::Struct(read_struct(s)?),
        ReflectRef::TupleStruct(s) => M::TupleStruct(read_tuple_struct(s)?),
        ReflectRef::Tuple(s) => M::Tuple(read_tuple(s)?),
        ReflectRef::Enum(s) => {
            let (n, f) = read_enum(s)?;
            M::Enum(n, f)
        }
        ReflectRef::Array(s) => M::Array(read_array(s)?),
        ReflectRef::List(s) => M::List(read_array(s)?),
        ReflectRef::Map(s) => M::map(read_map(s)?),
        ReflectRef::Scalar(s) => M::S(scalar_ref(&s)),
        ReflectRef::Opaque(s) => read_opaque(s)?,
    })
}

/// What a dynamic value contains.
pub fn read_value(v: &Value) -> M {
    match v {
        Value::usize(x) => M::S(Sc::Usize(*x)),
        Value::u8(x) => M::S(Sc::U8(*x)),
        Value::u16(x) => M::S(Sc::U16(*x)),
        Value::u32(x) => M::S(Sc::U32(*x)),
        Value::u64(x) => M::S(Sc::U64(*x)),
        Value::u128(x) => M::S(Sc::U128(*x)),
        Value::i8(x) => M::S(Sc::I8(*x)),
        Value::i16(x) => M::S(Sc::I16(*x)),
        Value::i32(x) => M::S(Sc::I32(*x)),
        Value::i64(x) => M::S(Sc::I64(*x)),
        Value::i128(x) => M::S(Sc::I128(*x)),
        Value::bool(x) => M::S(Sc::Bool(*x)),
        Value::char(x) => M::S(Sc::Char(*x)),
        Value::f32(x) => M::S(Sc::F32(x.to_bits())),
        Value::f64(x) => M::S(Sc::F64(x.to_bits())),
        Value::String(x) => M::S(Sc::Str(x.clone())),
        Value::StructValue(s) => M::Struct(
            Struct::fields(&**s).map(|(n, v)| (n.to_owned(), read_any(v))).collect(),
        ),
        Value::EnumValue(e) => {
            let name = e.variant_name().to_owned();
            match e.variant_kind() {
                VariantKind::Unit => M::Enum(name, F::Unit),
                VariantKind::Tuple => M::Enum(
                    name,
                    F::Tuple(
                        e.fields()
                            .map(|f| match f {
                                VariantField::Tuple(v) => read_any(v),
                                VariantField::Struct(_, v) => read_any(v),
                            })
                            .collect(),
                    ),
                ),
                VariantKind::Struct => M::Enum(
                    name,
                    F::Struct(
                        e.fields()
                            .map(|f| match f {
                                VariantField::Tuple(v) => (String::from("\u{1}unnamed"), read_any(v)),
                                VariantField::Struct(n, v) => (n.to_owned(), read_any(v)),
                            })
                            .collect(),
                    ),
                ),
            }
        }
        Value::TupleStructValue(s) => M::TupleStruct(TupleStruct::fields(s).map(read_any).collect()),
        Value::TupleValue(s) => M::Tuple(Tuple::fields(s).map(read_any).collect()),
        Value::List(v) => M::List(v.as_slice().iter().map(read_value).collect()),
        Value::Map(v) => M::map(v.iter().map(|(k, v)| (read_value(k), read_value(v))).collect()),
    }
}

fn read_any(r: &dyn Reflect) -> M {
    match read(r) {
        Ok(m) => m,
        Err(e) => M::S(Sc::Str(format!("\u{1}unreadable: {e}"))),
    }
}

pub fn read_s(r: &dyn Reflect) -> M {
    read_any(r)
}
