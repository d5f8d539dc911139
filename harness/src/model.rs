//! The shadow model: what a value or a type *is*, independent of the library.

use mirror_mirror::enum_::EnumValue;
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
use mirror_mirror::{Reflect, TypeDescriptor, Value};
use std::any::{Any, TypeId};
use std::borrow::Cow;
use std::collections::BTreeMap;

use crate::rng::Rng;

/// A scalar, floats by their bits.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sc {
    Usize(usize),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    Bool(bool),
    Char(char),
    F32(u32),
    F64(u64),
    Str(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum SK {
    Usize,
    U8,
    U16,
    U32,
    U64,
    U128,
    I8,
    I16,
    I32,
    I64,
    I128,
    Bool,
    Char,
    F32,
    F64,
    Str,
}

pub const ALL_SK: [SK; 16] = [
    SK::Usize, SK::U8, SK::U16, SK::U32, SK::U64, SK::U128, SK::I8, SK::I16, SK::I32, SK::I64,
    SK::I128, SK::Bool, SK::Char, SK::F32, SK::F64, SK::Str,
];

impl Sc {
    pub fn kind(&self) -> SK {
        match self {
            Sc::Usize(_) => SK::Usize,
            Sc::U8(_) => SK::U8,
            Sc::U16(_) => SK::U16,
            Sc::U32(_) => SK::U32,
            Sc::U64(_) => SK::U64,
            Sc::U128(_) => SK::U128,
            Sc::I8(_) => SK::I8,
            Sc::I16(_) => SK::I16,
            Sc::I32(_) => SK::I32,
            Sc::I64(_) => SK::I64,
            Sc::I128(_) => SK::I128,
            Sc::Bool(_) => SK::Bool,
            Sc::Char(_) => SK::Char,
            Sc::F32(_) => SK::F32,
            Sc::F64(_) => SK::F64,
            Sc::Str(_) => SK::Str,
        }
    }

    pub fn to_value(&self) -> Value {
        match self {
            Sc::Usize(x) => Value::usize(*x),
            Sc::U8(x) => Value::u8(*x),
            Sc::U16(x) => Value::u16(*x),
            Sc::U32(x) => Value::u32(*x),
            Sc::U64(x) => Value::u64(*x),
            Sc::U128(x) => Value::u128(*x),
            Sc::I8(x) => Value::i8(*x),
            Sc::I16(x) => Value::i16(*x),
            Sc::I32(x) => Value::i32(*x),
            Sc::I64(x) => Value::i64(*x),
            Sc::I128(x) => Value::i128(*x),
            Sc::Bool(x) => Value::bool(*x),
            Sc::Char(x) => Value::char(*x),
            Sc::F32(x) => Value::f32(f32::from_bits(*x)),
            Sc::F64(x) => Value::f64(f64::from_bits(*x)),
            Sc::Str(x) => Value::String(x.clone()),
        }
    }

    /// Equality of the native scalar (NaN is not equal to itself, zeros are equal).
    pub fn native_eq(&self, other: &Sc) -> bool {
        match (self, other) {
            (Sc::F32(a), Sc::F32(b)) => f32::from_bits(*a) == f32::from_bits(*b),
            (Sc::F64(a), Sc::F64(b)) => f64::from_bits(*a) == f64::from_bits(*b),
            _ => self == other,
        }
    }

    /// Equality inside dynamic values: as native, but NaN equals NaN.
    pub fn total_eq(&self, other: &Sc) -> bool {
        match (self, other) {
            (Sc::F32(a), Sc::F32(b)) => {
                let (a, b) = (f32::from_bits(*a), f32::from_bits(*b));
                a == b || (a.is_nan() && b.is_nan())
            }
            (Sc::F64(a), Sc::F64(b)) => {
                let (a, b) = (f64::from_bits(*a), f64::from_bits(*b));
                a == b || (a.is_nan() && b.is_nan())
            }
            _ => self == other,
        }
    }

    /// As an index, if it is a non-negative integer that fits.
    pub fn as_index(&self) -> Option<usize> {
        match self {
            Sc::Usize(x) => Some(*x),
            Sc::U8(x) => Some(*x as usize),
            Sc::U16(x) => Some(*x as usize),
            Sc::U32(x) => usize::try_from(*x).ok(),
            Sc::U64(x) => usize::try_from(*x).ok(),
            Sc::U128(x) => usize::try_from(*x).ok(),
            Sc::I8(x) => usize::try_from(*x).ok(),
            Sc::I16(x) => usize::try_from(*x).ok(),
            Sc::I32(x) => usize::try_from(*x).ok(),
            Sc::I64(x) => usize::try_from(*x).ok(),
            Sc::I128(x) => usize::try_from(*x).ok(),
            _ => None,
        }
    }

    /// An index of the given integer kind, if representable.
    pub fn index_of_kind(kind: SK, i: usize) -> Option<Sc> {
        Some(match kind {
            SK::Usize => Sc::Usize(i),
            SK::U8 => Sc::U8(i.try_into().ok()?),
            SK::U16 => Sc::U16(i.try_into().ok()?),
            SK::U32 => Sc::U32(i.try_into().ok()?),
            SK::U64 => Sc::U64(i as u64),
            SK::U128 => Sc::U128(i as u128),
            SK::I8 => Sc::I8(i.try_into().ok()?),
            SK::I16 => Sc::I16(i.try_into().ok()?),
            SK::I32 => Sc::I32(i.try_into().ok()?),
            SK::I64 => Sc::I64(i.try_into().ok()?),
            SK::I128 => Sc::I128(i as i128),
            _ => return None,
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum F {
    Unit,
    Tuple(Vec<M>),
    Struct(Vec<(String, M)>),
}

/// The model of a value.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum M {
    S(Sc),
    /// A typed value whose own type is opaque but which shows itself as a scalar.
    Via(&'static str, Sc),
    Struct(Vec<(String, M)>),
    TupleStruct(Vec<M>),
    Tuple(Vec<M>),
    Enum(String, F),
    List(Vec<M>),
    Array(Vec<M>),
    /// Entries, kept sorted.
    Map(Vec<(M, M)>),
    /// A truly opaque typed value: type name and an identity.
    Opaque(&'static str, u64),
}

impl M {
    pub fn str(s: &str) -> M {
        M::S(Sc::Str(s.to_owned()))
    }

    pub fn map(mut v: Vec<(M, M)>) -> M {
        v.sort();
        M::Map(v)
    }

    pub fn kind_name(&self) -> &'static str {
        match self {
            M::S(_) => "scalar",
            M::Via(..) => "via-scalar",
            M::Struct(_) => "struct",
            M::TupleStruct(_) => "tuple-struct",
            M::Tuple(_) => "tuple",
            M::Enum(_, F::Unit) => "unit-variant",
            M::Enum(_, F::Tuple(_)) => "tuple-variant",
            M::Enum(_, F::Struct(_)) => "struct-variant",
            M::List(_) => "list",
            M::Array(_) => "array",
            M::Map(_) => "map",
            M::Opaque(..) => "opaque",
        }
    }

    /// The children, in order.
    pub fn children(&self) -> Vec<&M> {
        match self {
            M::S(_) | M::Via(..) | M::Opaque(..) | M::Enum(_, F::Unit) => vec![],
            M::Struct(v) | M::Enum(_, F::Struct(v)) => v.iter().map(|x| &x.1).collect(),
            M::TupleStruct(v) | M::Tuple(v) | M::List(v) | M::Array(v) | M::Enum(_, F::Tuple(v)) => {
                v.iter().collect()
            }
            M::Map(v) => v.iter().flat_map(|(k, v)| [k, v]).collect(),
        }
    }

    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|c| c.size()).sum::<usize>()
    }

    pub fn has_opaque(&self) -> bool {
        matches!(self, M::Opaque(..)) || self.children().iter().any(|c| c.has_opaque())
    }

    pub fn has_nan(&self) -> bool {
        match self {
            M::S(Sc::F32(b)) | M::Via(_, Sc::F32(b)) => f32::from_bits(*b).is_nan(),
            M::S(Sc::F64(b)) | M::Via(_, Sc::F64(b)) => f64::from_bits(*b).is_nan(),
            _ => self.children().iter().any(|c| c.has_nan()),
        }
    }

    /// Applies `f` to every scalar.
    pub fn map_scalars(&self, f: &dyn Fn(&Sc) -> Sc) -> M {
        let many = |v: &Vec<M>| v.iter().map(|m| m.map_scalars(f)).collect::<Vec<_>>();
        let named = |v: &Vec<(String, M)>| {
            v.iter().map(|(n, m)| (n.clone(), m.map_scalars(f))).collect::<Vec<_>>()
        };
        match self {
            M::S(s) => M::S(f(s)),
            M::Via(n, s) => M::Via(n, f(s)),
            M::Struct(v) => M::Struct(named(v)),
            M::TupleStruct(v) => M::TupleStruct(many(v)),
            M::Tuple(v) => M::Tuple(many(v)),
            M::Enum(n, F::Unit) => M::Enum(n.clone(), F::Unit),
            M::Enum(n, F::Tuple(v)) => M::Enum(n.clone(), F::Tuple(many(v))),
            M::Enum(n, F::Struct(v)) => M::Enum(n.clone(), F::Struct(named(v))),
            M::List(v) => M::List(many(v)),
            M::Array(v) => M::Array(many(v)),
            M::Map(v) => {
                M::map(v.iter().map(|(k, v)| (k.map_scalars(f), v.map_scalars(f))).collect())
            }
            M::Opaque(n, i) => M::Opaque(n, *i),
        }
    }

    /// What a reader sees through the views: number-like wrappers are scalars.
    pub fn shown(&self) -> M {
        let many = |v: &Vec<M>| v.iter().map(|m| m.shown()).collect::<Vec<_>>();
        let named = |v: &Vec<(String, M)>| {
            v.iter().map(|(n, m)| (n.clone(), m.shown())).collect::<Vec<_>>()
        };
        match self {
            M::S(s) | M::Via(_, s) => M::S(s.clone()),
            M::Struct(v) => M::Struct(named(v)),
            M::TupleStruct(v) => M::TupleStruct(many(v)),
            M::Tuple(v) => M::Tuple(many(v)),
            M::Enum(n, F::Unit) => M::Enum(n.clone(), F::Unit),
            M::Enum(n, F::Tuple(v)) => M::Enum(n.clone(), F::Tuple(many(v))),
            M::Enum(n, F::Struct(v)) => M::Enum(n.clone(), F::Struct(named(v))),
            M::List(v) => M::List(many(v)),
            M::Array(v) => M::Array(many(v)),
            M::Map(v) => M::map(v.iter().map(|(k, v)| (k.shown(), v.shown())).collect()),
            M::Opaque(n, i) => M::Opaque(n, *i),
        }
    }

    /// What the dynamic form of the value contains: `shown`, arrays are lists and opaque values are
    /// the number they identify themselves by.
    pub fn erased(&self) -> M {
        let many = |v: &Vec<M>| v.iter().map(|m| m.erased()).collect::<Vec<_>>();
        let named = |v: &Vec<(String, M)>| {
            v.iter().map(|(n, m)| (n.clone(), m.erased())).collect::<Vec<_>>()
        };
        match self {
            M::S(s) | M::Via(_, s) => M::S(s.clone()),
            M::Struct(v) => M::Struct(named(v)),
            M::TupleStruct(v) => M::TupleStruct(many(v)),
            M::Tuple(v) => M::Tuple(many(v)),
            M::Enum(n, F::Unit) => M::Enum(n.clone(), F::Unit),
            M::Enum(n, F::Tuple(v)) => M::Enum(n.clone(), F::Tuple(many(v))),
            M::Enum(n, F::Struct(v)) => M::Enum(n.clone(), F::Struct(named(v))),
            M::List(v) | M::Array(v) => M::List(many(v)),
            M::Map(v) => M::map(v.iter().map(|(k, v)| (k.erased(), v.erased())).collect()),
            M::Opaque(_, id) => M::S(Sc::U64(*id)),
        }
    }

    /// Representative under the equality of dynamic values (one NaN, one zero).
    pub fn canon(&self) -> M {
        self.map_scalars(&|s| match s {
            Sc::F32(b) => {
                let x = f32::from_bits(*b);
                Sc::F32(if x.is_nan() { f32::NAN.to_bits() } else if x == 0.0 { 0 } else { *b })
            }
            Sc::F64(b) => {
                let x = f64::from_bits(*b);
                Sc::F64(if x.is_nan() { f64::NAN.to_bits() } else if x == 0.0 { 0 } else { *b })
            }
            s => s.clone(),
        })
    }

    /// The key this value is in a dynamic map.
    pub fn as_key(&self) -> M {
        self.erased().canon()
    }

    /// Builds the dynamic value this model describes (arrays and wrappers in their dynamic form,
    /// opaque values as their identity).
    pub fn dynamic(&self) -> Value {
        match self {
            M::S(s) | M::Via(_, s) => s.to_value(),
            M::Struct(v) => {
                let mut s = StructValue::new();
                for (n, m) in v {
                    s.set_field(n.clone(), m.dynamic());
                }
                s.into()
            }
            M::TupleStruct(v) => {
                let mut s = TupleStructValue::new();
                for m in v {
                    s = s.with_field(m.dynamic());
                }
                s.into()
            }
            M::Tuple(v) => {
                let mut s = TupleValue::new();
                for m in v {
                    s.push_field(m.dynamic());
                }
                s.into()
            }
            M::Enum(n, F::Unit) => EnumValue::new_unit_variant(n.clone()).into(),
            M::Enum(n, F::Tuple(v)) => {
                let mut s = EnumValue::new_tuple_variant(n.clone());
                for m in v {
                    s.push_tuple_field(m.dynamic());
                }
                s.finish().into()
            }
            M::Enum(n, F::Struct(v)) => {
                let mut s = EnumValue::new_struct_variant(n.clone());
                for (n, m) in v {
                    s.set_struct_field(n.clone(), m.dynamic());
                }
                s.finish().into()
            }
            M::List(v) | M::Array(v) => Value::List(v.iter().map(|m| m.dynamic()).collect()),
            M::Map(v) => Value::Map(
                v.iter().map(|(k, v)| (k.dynamic(), v.dynamic())).collect::<BTreeMap<_, _>>(),
            ),
            M::Opaque(_, id) => Value::u64(*id),
        }
    }
}

pub fn short(m: &M) -> String {
    let mut s = format!("{m:?}");
    if s.len() > 600 {
        let mut cut = 600;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        s.truncate(cut);
        s.push('…');
    }
    s
}

// ---------------------------------------------------------------------------------------------
// types

pub type TyFn = fn() -> &'static Ty;
pub type With = fn(&M) -> Option<M>;

#[derive(Clone)]
pub struct FieldTy {
    pub name: Option<&'static str>,
    pub ty: TyFn,
    pub meta: Vec<(&'static str, M)>,
    pub docs: Vec<&'static str>,
    pub with: Option<With>,
}

impl FieldTy {
    pub fn named(name: &'static str, ty: TyFn) -> Self {
        FieldTy { name: Some(name), ty, meta: vec![], docs: vec![], with: None }
    }
    pub fn at(ty: TyFn) -> Self {
        FieldTy { name: None, ty, meta: vec![], docs: vec![], with: None }
    }
    pub fn meta(mut self, k: &'static str, v: M) -> Self {
        self.meta.push((k, v));
        self
    }
    pub fn doc(mut self, d: &'static str) -> Self {
        self.docs.push(d);
        self
    }
    pub fn with(mut self, w: With) -> Self {
        self.with = Some(w);
        self
    }
    pub fn ty(&self) -> &'static Ty {
        (self.ty)()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum VK {
    Unit,
    Tuple,
    Struct,
}

#[derive(Clone)]
pub struct VariantTy {
    pub name: &'static str,
    pub kind: VK,
    pub fields: Vec<FieldTy>,
    pub meta: Vec<(&'static str, M)>,
    pub docs: Vec<&'static str>,
}

impl VariantTy {
    pub fn new(name: &'static str, kind: VK, fields: Vec<FieldTy>) -> Self {
        VariantTy { name, kind, fields, meta: vec![], docs: vec![] }
    }
    pub fn meta(mut self, k: &'static str, v: M) -> Self {
        self.meta.push((k, v));
        self
    }
    pub fn doc(mut self, d: &'static str) -> Self {
        self.docs.push(d);
        self
    }
}

#[derive(Clone)]
pub enum K {
    Scalar(SK),
    /// Opaque type shown as a scalar; the predicate says which scalars it can hold.
    Via(SK, fn(&Sc) -> bool),
    /// A dynamic value.
    Any,
    /// Opaque; the default value, if it declares one.
    Opaque(Option<M>),
    Struct(Vec<FieldTy>),
    TupleStruct(Vec<FieldTy>),
    Tuple(Vec<FieldTy>),
    Enum(Vec<VariantTy>),
    List(TyFn),
    Array(TyFn, usize),
    Map(TyFn, TyFn),
}

/// What a declared type is, as written down by the zoo and not derived from the library.
pub struct Ty {
    /// Full name of the type the description talks about (a box is described as its contents).
    pub name: &'static str,
    pub id: TypeId,
    pub k: K,
    pub meta: Vec<(&'static str, M)>,
    pub docs: Vec<&'static str>,
    /// Has its own conversion, whose rules are not the standard ones.
    pub custom: Option<fn(&M) -> Conv>,
    /// Downcasts to the native type and models it natively.
    pub native: fn(&dyn Any) -> Option<M>,
    pub ops: Ops,
}

#[derive(Clone, Copy)]
pub struct Ops {
    /// Whether there are any values at all.
    pub possible: fn() -> bool,
    pub gen: fn(&mut Rng, u32) -> Box<dyn ZooDyn>,
    pub conv: fn(&dyn Reflect) -> Option<Box<dyn ZooDyn>>,
    pub desc: fn() -> Cow<'static, TypeDescriptor>,
    pub boxed: fn(Box<dyn ZooDyn>) -> Box<dyn Reflect>,
}

impl Ty {
    /// The types of the parts, with how they are reached.
    pub fn parts(&self) -> Vec<&'static Ty> {
        match &self.k {
            K::Scalar(_) | K::Via(..) | K::Any | K::Opaque(_) => vec![],
            K::Struct(f) | K::TupleStruct(f) | K::Tuple(f) => f.iter().map(|f| f.ty()).collect(),
            K::Enum(vs) => vs.iter().flat_map(|v| v.fields.iter().map(|f| f.ty())).collect(),
            K::List(t) | K::Array(t, _) => vec![t()],
            K::Map(k, v) => vec![k(), v()],
        }
    }

    /// All types contained in this one, itself included.
    pub fn closure(&'static self) -> Vec<&'static Ty> {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut todo = vec![self];
        while let Some(t) = todo.pop() {
            if seen.insert(t as *const Ty) {
                out.push(t);
                todo.extend(t.parts());
            }
        }
        out
    }

    pub fn any_part(&'static self, f: impl Fn(&Ty) -> bool) -> bool {
        self.closure().into_iter().any(|t| f(t))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Conv {
    Ok(M),
    Fail,
    /// The documentation does not say what happens.
    Unspec,
}

/// An owned value of a zoo type.
pub trait ZooDyn {
    fn r(&self) -> &dyn Reflect;
    fn r_mut(&mut self) -> &mut dyn Reflect;
    fn into_reflect(self: Box<Self>) -> Box<dyn Reflect>;
    fn into_value(self: Box<Self>) -> Value;
    fn model(&self) -> M;
    fn skips(&self) -> Vec<u64>;
    fn set_skips(&mut self, n: u64);
    fn ty(&self) -> &'static Ty;
    fn dbg(&self, alt: bool, short: bool) -> String;
    fn desc_of(&self) -> Cow<'static, TypeDescriptor>;
}
