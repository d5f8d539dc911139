//! A crate without the standard library, not even `alloc`, in which everything the derive supports has to compile.
#![no_std]
extern crate mirror_mirror;
use mirror_mirror::{key_path, FromReflect, GetField, GetFieldMut, Reflect, Value};

#[derive(Reflect, Clone, Debug)]
#[reflect(meta(a = 1_u8, unit = Unit))]
/// docs
pub struct Named {
    /// more
    #[reflect(meta(b = "x"))]
    pub a: u8,
    pub b: Option<i32>,
    #[reflect(skip)]
    pub c: Foreign,
    #[reflect(from_reflect_with(lenient))]
    pub d: i32,
    pub e: [bool; 3],
    pub f: (u8, char, f32),
    pub r#type: Value,
}
#[derive(Clone, Debug, Default)]
pub struct Foreign;
fn lenient(x: &dyn Reflect) -> Option<i32> {
    Some(x.downcast_ref::<i32>().copied().unwrap_or(7))
}
#[derive(Reflect, Clone, Debug)]
pub struct Unit;
#[derive(Reflect, Clone, Debug)]
pub struct Tup(pub u8, #[reflect(skip)] pub Foreign, #[reflect(meta(c = 'x'))] pub Named);
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum En {
    A,
    #[reflect(meta(d = true))]
    B(u8, Option<Unit2>),
    /// docs
    C { x: u8, #[reflect(skip)] y: () },
    #[reflect(skip)]
    D(u8),
}
#[derive(Reflect, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Unit2 {}
#[derive(Reflect, Clone, Debug)]
pub enum Never {}
#[derive(Reflect)]
#[reflect(opt_out(Clone, Debug))]
pub struct Bare {
    pub a: BareT,
    pub e: BareE,
}
#[derive(Reflect)]
#[reflect(opt_out(Debug, Clone))]
pub struct BareT(pub u8);
#[derive(Reflect)]
#[reflect(opt_out(Debug, Clone))]
pub enum BareE {
    A(u8),
    B { x: u8 },
    C,
}
#[derive(Reflect, Clone, Debug)]
#[reflect(opt_out(FromReflect), crate_name(mirror_mirror))]
pub struct Own(pub u8);
impl FromReflect for Own {
    fn from_reflect(x: &dyn Reflect) -> Option<Self> {
        x.downcast_ref::<u8>().map(|x| Own(*x))
    }
}
pub trait Bound: Reflect + FromReflect + mirror_mirror::type_info::DescribeType + Clone + core::fmt::Debug {}
#[derive(Reflect, Clone, Debug)]
pub struct Gen<T: Bound, const N: usize> {
    pub t: T,
    pub a: [T; N],
}
#[derive(Reflect, Clone, Debug)]
pub enum GenE<T>
where
    T: Bound,
{
    A(T),
    B { t: T },
}

pub fn uses(x: &mut Named, v: &Value) -> Option<u8> {
    let p = key_path!(.a);
    let _ = mirror_mirror::key_path!([1]::B[0]);
    let y = Named::from_reflect(v)?;
    x.patch(&y);
    *x.get_field_mut::<u8>("a")? = 1;
    let _ = x.to_value();
    use mirror_mirror::key_path::GetPath;
    let _ = x.at(&p)?;
    x.get_field::<u8>("a").copied()
}
#[derive(Reflect, Clone, Debug)]
#[allow(non_snake_case)]
pub enum Kinds {
    HashMap,
    Of { HashMap: u8 },
}
