#!/usr/bin/env python3
"""Generates the wild zoo: declarations that use everything the derive documents, in unusual ways
(names, attribute positions, generics, macros, visibilities, spelled types), each with its model.

usage: wildgen.py OUT SEED N"""
import random, sys
import zoogen as z
from zoogen import T, Fl, Va, S, SKT, METAS, DOCS, DOC_EXPRS, rstr, emit

FNAMES = z.SHADOW + ["r#type", "r#match", "r#fn", "r#struct", "r#use", "größe", "名前", "naïve", "FOO", "Some_", "Ok_", "u8_", "usize", "u8", "str", "bool",
    "String", "Vec", "Self_", "_x", "__", "_self", "self_", "__field", "field_", "field_a", "field_r", "a_very_long_field_name_that_goes_on_and_on_and_on", "f0", "_1", "x_1", "X1",
    "Reflect", "Value", "Struct", "None_", "default", "union", "auto", "dyn_", "raw", "crate_", "super_", "r#true_", "enum_value", "struct_value", "set_struct_field", "push_tuple_field",
    "descriptor", "type_", "ty", "idx", "index", "graph", "fields", "variants", "positions", "finish", "with_field", "set_field", "to_owned", "clone", "into", "patch", "new",
    "fmt", "alternate", "core", "alloc", "std", "mirror_mirror", "std_", "main", "test", "env", "args", "iter", "iter_mut", "boxed", "opt", "meta", "skip", "opt_out", "from_reflect_with", "crate_name", "HashMap", "hash_map"]
VNAMES = z.VNAMES + ["None", "Some", "Ok", "Err", "Value", "Reflect", "Box", "String", "Vec", "Struct", "Enum", "Type", "a", "b", "lower_case", "r#type", "r#match", "größe", "Ä", "Self_", "E", "T", "U", "X", "Y",
    "Default", "Clone", "Debug", "Option", "Result", "Key", "List", "Map", "Array", "Scalar", "Opaque", "Tuple", "TupleStruct", "VariantKind", "VariantField", "EnumValue", "FromReflect", "DescribeType",
    "TypeGraph", "NodeId", "BTreeMap", "Any", "u8", "usize", "value", "other", "self_", "field", "_0", "__", "HashMap", "LongVariantNameThatGoesOnAndOn", "aB", "Ab", "AB"]
SPELL = {
 "u8": ["core::primitive::u8", "<u8 as Same>::T", "(u8)", "AliasU8", "self::AliasU8"],
 "i32": ["<i32 as Same>::T", "::core::primitive::i32", "(i32)"],
 "String": ["std::string::String", "::std::string::String", "<String as Same>::T", "(String)", "AliasString"],
 "Vec<u8>": ["Vec<u8,>", "std::vec::Vec<u8>", "AliasVec<u8>", "Vec<AliasU8>", "<Vec<u8> as Same>::T", "Vec<<u8 as Same>::T>"],
 "[u8; 2]": ["[u8; 1 + 1]", "[u8; TWO]", "[u8; { 4 / 2 }]", "[u8; 2usize]", "[AliasU8; TWO]", "[u8; <u8 as Same>::N]"],
 "Option<i32>": ["core::option::Option<i32>", "Option<i32,>", "::std::option::Option<<i32 as Same>::T>"],
 "BTreeMap<u8, String>": ["std::collections::BTreeMap<u8, String>", "BTreeMap<AliasU8, AliasString,>"],
 "(u8,String,)": ["(u8, String)", "(AliasU8, std::string::String,)"],
}
POOL = ["u8", "u8", "i32", "i32", "String", "String", "bool", "f64", "char", "u128", "Vec<u8>", "[u8; 2]", "Option<i32>", "BTreeMap<u8, String>", "(u8,String,)", "Box<u8>", "Plain", "En", "usize", "i8", "Pair", "Unit", "Duration", "ClashS", "ClashT", "ClashE", "ClashE"]
ORD = ["u8", "i32", "String", "bool", "char", "u128", "Vec<u8>", "[u8; 2]", "Option<i32>", "BTreeMap<u8, String>", "(u8,String,)", "usize", "Duration", "En", "ClashS", "ClashT", "ClashE"]
FOREIGN = [("std::marker::PhantomData<u8>", True), ("std::collections::BTreeSet<u8>", True), ("std::sync::Arc<u8>", True), ("std::cell::Cell<u8>", True), ("Cu", False), ("Option<fn(u8) -> u8>", False), ("&'static str", True), ("std::collections::HashMap<u8, u8>", False), ("Vec<std::collections::HashMap<String, ()>>", False)]
FEXTRA = ["#[allow(dead_code)]", '#[doc(alias = "y")]', "#[cfg(all())]", "#[doc(hidden)]", "#[allow(clippy::all)]", "#[rustfmt::skip]"]
VEXTRA = FEXTRA[:5]
IEXTRA = ["#[allow(dead_code)]", "#[doc(hidden)]", '#[doc(alias = "x")]', "#[must_use]", "#[non_exhaustive]", "#[cfg(all())]", "#[allow(clippy::all)]", "#[cfg_attr(any(), derive(Nope))]"]
VIS = ["pub ", "pub(crate) ", "", "pub(in crate::types) ", "pub(self) "]
PRE = """
pub trait Same { type T; const N: usize = 2; }
impl<X> Same for X { type T = X; }
pub type AliasU8 = u8;
pub type AliasString = String;
pub type AliasVec<X> = Vec<X>;
pub const TWO: usize = 2;
#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Cu { x: Option<Box<Cu>> }
pub mod renamed { pub use mirror_mirror as mm; pub mod deep { pub use mirror_mirror as r#mod; } }
pub const fn meta_of(x: u8) -> u8 { x + 1 }
pub mod consts { pub const K: u16 = 77; pub fn five<X: From<u8>>() -> X { X::from(5) } }
"""
# methods of the types themselves, and of a trait in scope, that are called like those of the library's traits
CLASHING = """ pub fn to_value(&self) -> u8 { 0 } pub fn patch(&mut self, _: ()) {} pub fn as_reflect(&self) -> u8 { 0 } pub fn as_reflect_mut(&mut self) -> u8 { 0 }
 pub fn variant_name(&self) -> &'static str { "clash" } pub fn field(&self, _: &str) -> Option<u8> { None } pub fn field_mut(&mut self, _: &str) -> Option<u8> { None }
 pub fn field_at(&self, _: usize) -> Option<u8> { None } pub fn field_at_mut(&mut self, _: usize) -> Option<u8> { None } pub fn from_reflect(_: u8) -> u8 { 0 }
 pub fn type_descriptor(&self) -> u8 { 0 } pub fn build() -> u8 { 0 } pub fn debug(&self) {} pub fn clone_reflect(&self) -> u8 { 0 } pub fn fields(&self) -> u8 { 0 }
 pub fn fields_mut(&mut self) -> u8 { 0 } pub fn name_at(&self) -> u8 { 0 } pub fn reflect_ref(&self) -> u8 { 0 } pub fn into_value(self) -> u8 where Self: Sized { 0 } """
PRE += "#[allow(dead_code)]\npub trait InScope {" + CLASHING.replace("pub fn", "fn") + "}\n" + "".join(f"impl InScope for {x} {{}} " for x in ["u8", "i32", "String", "bool", "Box<u8>", "(u8, String)", "Plain", "En", "Pair", "Unit", "Duration"]) + "impl<X> InScope for Vec<X> {} impl<X> InScope for Option<X> {} impl<K, V> InScope for BTreeMap<K, V> {} impl<const N: usize> InScope for [u8; N] {}\n"
WMETAS = METAS + [("meta_of(4)", "M::S(Sc::U8(5))"), ("consts::K", "M::S(Sc::U16(77))"), ("consts::five::<i64>()", "M::S(Sc::I64(5))"), ("{ let q = 1_u8; q + 1 }", "M::S(Sc::U8(2))"),
    ("if true { 'x' } else { 'y' }", "M::S(Sc::Char('x'))"), ("<u8>::MAX", "M::S(Sc::U8(255))"), ("-7_i8", "M::S(Sc::I8(-7))"), ("(3_u8)", "M::S(Sc::U8(3))"), ('concat!("a", "b")', 'M::str("ab")'),
    ("Unit", "M::Struct(vec![])"), ("!0_u8", "M::S(Sc::U8(255))"), ("f32::NAN.is_nan()", "M::S(Sc::Bool(true))"), ("[1_u8, 2].len()", "M::S(Sc::Usize(2))"), ("(|x: u8| x * 2)(4)", "M::S(Sc::U8(8))"),
    ("match 3 { 3 => true, _ => false }", "M::S(Sc::Bool(true))"), ("Vec::<u8>::new()", "M::List(vec![])"), ('r#"raw "q""#', 'M::str("raw \\"q\\"")'), ("\"a\" == \"a\"", "M::S(Sc::Bool(true))")]
MKEYS = ["m", "unit", "name", "min", "r_", "key", "value", "skip", "meta", "opt_out", "Debug", "a", "A", "größe", "_u", "graph", "self_", "default", "docs", "fields"]

def metas(r, p=.3):
    if r.random() > p: return []
    return [(k,) + r.choice(WMETAS) for k in r.sample(MKEYS, r.choice([1, 1, 2, 3]))]
def docs(r, p=.3):
    return [r.choice(list(DOC_EXPRS)) if r.random() < .2 else r.choice(DOCS) for _ in range(r.choice([1, 2, 3]))] if r.random() < p else []

def typ(r, ordd, generic=()):
    if generic and r.random() < .5: return T(r.choice(generic))
    e = r.choice(ORD if ordd else POOL)
    return S(e)
def spelled(r, f):
    if f.t.e in SPELL and r.random() < .5: f.decl = r.choice(SPELL[f.t.e])

def fields(r, named, k, ordd, generic, clone, debug, vis=True):
    pool = list(dict.fromkeys(FNAMES))
    names = r.sample(pool, k)
    out = []
    for i in range(k):
        nm = names[i] if named else None
        x = r.random()
        if x < .12:
            f = Fl(nm, SKT, skip=True, docs=docs(r, .2), meta=metas(r, .1))
        elif x < .22:
            e, o = r.choice(FOREIGN)
            if ordd and not o: e = "std::marker::PhantomData<u8>"
            if generic and r.random() < .5: e = f"std::marker::PhantomData<({', '.join(generic)},)>"
            f = Fl(nm, T(e), skip=True, docs=docs(r, .2), meta=metas(r, .1))
            f.dflt = "Default::default()"
        else:
            t = typ(r, ordd, generic)
            w = {"i32": "lenient_i32", "String": "lenient_string"}.get(t.e) if r.random() < .25 else None
            f = Fl(nm, t, meta=metas(r), docs=docs(r), with_=w)
            spelled(r, f)
        f.extra = r.sample(FEXTRA, r.choice([0, 0, 0, 1, 2]))
        f.vis = r.choice(VIS) if vis else "pub "
        if r.random() < .06: f.pre = ("nope: " if named else "").join(["#[cfg(any())] #[reflect(skip)] ", "Nope,\n    "]) if r.random() < .5 else ("nope: " if named else "").join(["#[cfg(not(all()))] ", "Nope,\n    "])
        out.append(f)
    return out

def count(r, p):
    return r.choices([0, 1, 2, 3, 5, 8, 25], p)[0]

def wraps(r, kind, plain_only):
    i = r.randrange(10 ** 9)
    k = r.choice(["tt", "item", "frag"])
    if plain_only and k == "frag": k = "item"
    m = f"wild_macro_{i}"
    if k == "tt": return lambda d: f"macro_rules! {m} {{ ($($t:tt)*) => {{ $($t)* }} }}\n{m}! {{\n{d}\n}}"
    if k == "item": return lambda d: f"macro_rules! {m} {{ ($i:item) => {{ $i }} }}\n{m}! {{\n{d}\n}}"
    A = "$(#[$a:meta])*"
    if kind in ("struct", "unit"):
        pat = A + " $v:vis struct $n:ident { $($(#[$fa:meta])* $fv:vis $f:ident : $t:ty),* $(,)? }"
        out = "$(#[$a])* $v struct $n { $($(#[$fa])* $fv $f: $t),* }"
    elif kind == "tuple":
        pat = A + " $v:vis struct $n:ident ( $($(#[$fa:meta])* $fv:vis $t:ty),* $(,)? );"
        out = "$(#[$a])* $v struct $n ( $($(#[$fa])* $fv $t),* );"
    else:
        pat = A + " $v:vis enum $n:ident { $($(#[$va:meta])* $vn:ident $(( $($(#[$ta:meta])* $tt:ty),* $(,)? ))? $({ $($(#[$fa:meta])* $f:ident : $t:ty),* $(,)? })? $(= $d:expr)?),* $(,)? }"
        out = "$(#[$a])* $v enum $n { $($(#[$va])* $vn $(( $($(#[$ta])* $tt),* ))? $({ $($(#[$fa])* $f: $t),* })? $(= $d)?),* }"
    return lambda d: f"macro_rules! {m} {{ ({pat}) => {{ {out} }} }}\n{m}! {{\n{d}\n}}"

B = "Zoo + Clone + std::fmt::Debug"
GENERICS = [  # params, args, where, impl params, type names, const usize names, instances
 ("<T>", "<T>", f"where T: {B}", "<T>", ["T"], [], ["<u8>", "<En>"]),
 (f"<T: {B}>", "<T>", "", f"<T: {B}>", ["T"], [], ["<String>"]),
 (f"<T: {B} = u8>", "<T>", "", f"<T: {B}>", ["T"], [], ["", "<Vec<bool>>"]),
 (f"<T,>", "<T>", f"where T: {B},", "<T>", ["T"], [], ["<i32>"]),
 (f"<T, U>", "<T, U>", f"where T: {B}, U: {B}, Vec<T>: Clone, (T, U): Sized", "<T, U>", ["T", "U"], [], ["<u8, String>", "<En, Plain>"]),
 (f"<T: {B}, U = T>", "<T, U>", f"where U: {B}, for<'x> &'x T: Sized,", f"<T: {B}, U>", ["T", "U"], [], ["<u8, i64>", "<i8>"]),
 ("<const N: usize>", "<N>", "", "<const N: usize>", ["[u8; N]", "[String; N]"], ["N"], ["<0>", "<3>"]),
 ("<const N: usize = 2, const Y: bool = true>", "<N, Y>", "where [u8; N]: Sized", "<const N: usize, const Y: bool>", ["[u8; N]"], ["N"], ["", "<1, false>"]),
 ("<T, const N: usize>", "<T, N>", f"where T: {B}", "<T, const N: usize>", ["T", "[T; N]"], ["N"], ["<u8, 2>", "<En, 1>"]),
 (f"<Value_: {B}, r#type>", "<Value_, r#type>", f"where r#type: {B}", f"<Value_: {B}, r#type>", ["Value_", "r#type"], [], ["<u8, bool>"]),
]

def wild(r, i):
    """one declaration: text, registered type expressions"""
    name = r.choice(["W{}", "W{}", "W{}", "w_{}", "Wä{}", "W_{}_", "_W{}"]).format(i)
    kind = r.choice(["struct", "struct", "tuple", "enum", "enum", "enum", "unit"])
    g = r.choice(GENERICS) if r.random() < .3 else None
    if g and kind == "unit" and any("[" not in x for x in g[4]): kind = "struct"
    generic = g[4] if g else []
    params = [x for x in generic if "[" not in x]  # the type parameters, which must be used
    ordd = not g and r.random() < .2
    clone = ordd or r.random() < .75
    debug = True if ordd else r.choice([True, True, True, False, "manual"])
    if g and debug == "manual": debug = True
    selfname = name
    kw = dict(clone=clone, debug=debug, ordd=ordd, meta=metas(r), docs=docs(r), extra=r.sample(IEXTRA, r.choice([0, 0, 1, 2])), vis=r.choice(["pub ", "pub ", "pub(crate) ", ""]))
    if g:
        kw["generics"] = g[:3]; kw["ig"] = g[3]
        for n in g[5]:
            if r.random() < .6: kw["meta"].append((f"c_{n}", n, f"M::S(Sc::Usize({n}))"))
    if r.random() < .2: kw["crate_name"] = r.choice(["mirror_mirror", "renamed::mm", "self::renamed::mm", "crate::types::renamed::mm", "renamed::deep::r#mod", "super::types::renamed::mm"])
    if kind == "enum":
        k = r.choices([1, 2, 3, 5, 9, 40], [2, 3, 4, 4, 2, .5])[0]
        vs = []
        disc = r.random() < .3
        for vn in r.sample(list(dict.fromkeys(VNAMES)), k):
            vk = "unit" if disc else r.choice(["unit", "tuple", "struct"])
            fs = [] if vk == "unit" else fields(r, vk == "struct", count(r, [1, 4, 4, 3, 1, .3, 0]), ordd, generic, clone, debug, vis=False)
            v = Va(vn, vk, fs, meta=metas(r, .2), docs=docs(r, .2))
            v.extra = r.sample(VEXTRA, r.choice([0, 0, 0, 1]))
            if r.random() < .05: v.pre = "#[cfg(any())] Nope(Nope),\n"
            vs.append(v)
        if len(vs) > 1 and r.random() < .3:
            s = r.choice(vs); s.skip = True; s.meta = []
            if s.kind != "unit" and s.kind == "tuple" and r.random() < .5: s.fields = [Fl(None, T("Cu"))]; s.fields[0].extra = []
        if params:
            # every parameter must be used
            ph = Fl(None, T(f"std::marker::PhantomData<({', '.join(params)},)>"), skip=True); ph.extra = []; ph.dflt = "Default::default()"
            v = Va("Ph_", "tuple", [ph] + ([Fl(None, S("u8"))] if r.random() < .5 else [])); v.extra = []
            for f in v.fields: f.extra = getattr(f, "extra", [])
            vs.append(v)
        if disc and all(v.kind == "unit" for v in vs):
            n = 0
            for v in vs:
                if r.random() < .5: n += r.randrange(1, 5); v.disc = f" = {n}"
                n += 1
            kw["extra"] = kw["extra"] + ["#[repr(u8)]"]
        body = vs
        allf = [f for v in vs for f in v.fields]
    elif kind == "unit": body = []; allf = []
    else:
        body = fields(r, kind == "struct", count(r, [1, 3, 4, 4, 3, 2, .6]), ordd, generic, clone, debug)
        if params:
            ph = Fl("phantom" if kind == "struct" else None, T(f"std::marker::PhantomData<({', '.join(params)},)>"), skip=True); ph.extra = []; ph.dflt = "Default::default()"
            body.insert(r.randrange(len(body) + 1), ph)
        if kind == "struct" and r.random() < .1: kw["extra"] = kw["extra"] + ["#[repr(C)]"]
        allf = body
    if kind == "unit" and (debug is True) and not g and r.random() < .3: kw["derives"] = ["Copy"] if clone else []
    if r.random() < .35 and not any(hasattr(f, "pre") for f in allf):
        kw["wrap"] = wraps(r, kind, bool(g) or kind == "unit")
        # a macro cannot match #[...] inside a type or an attribute it re-emits as one of ours
    manual = ""
    if debug == "manual":
        manual += f"impl std::fmt::Debug for {name} {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ " + r.choice([
            'f.write_str("custom")', 'f.debug_list().entry(&1).entry(&"two").finish()', 'f.debug_struct("Custom").field("x", &1).finish()', 'if f.alternate() { f.write_str("alternate") } else { f.pad("compact") }']) + " } }\n"
    if r.random() < .3: manual += f"#[allow(dead_code)] impl{g[3] if g else ''} {name}{g[1] if g else ''} {g[2] if g else ''} {{{CLASHING}}}\n"
    elif r.random() < .3: manual += f"impl{g[3] if g else ''} InScope for {name}{g[1] if g else ''} {g[2] if g else ''} {{}}\n"
    text = emit(r, name, kind, body, manual=manual, **kw)
    text = text
    regs = [name + inst for inst in g[6]] if g else [name]
    if not g and r.random() < .2:
        text = f"pub mod in_{i} {{\nuse super::*;\n" + text.replace("pub(in crate::types)", "pub(in super::super::types)" if r.random() < .5 else "pub(in crate::types)").replace("crate_name(self::", "crate_name(super::").replace("crate_name(renamed", "crate_name(super::renamed").replace("crate_name(super::types::", "crate_name(crate::types::").replace("self::AliasU8", "super::AliasU8") + f"\n}}"
        regs = [f"in_{i}::{name}"]
        text = text.replace(f"pub(self) struct {name}", f"pub struct {name}").replace(f"\nstruct {name}", f"\npub struct {name}").replace(f"\nenum {name}", f"\npub enum {name}").replace(f"pub(crate) struct {name}", f"pub struct {name}").replace(f"pub(crate) enum {name}", f"pub enum {name}")
    return text, regs

FIXED = """
#[derive(Debug, Clone, Reflect)]
pub enum NeverW {}
#[derive(Debug, Clone, Reflect)]
pub enum AllSkippedW { #[reflect(skip)] A, #[reflect(skip)] B(Cu) }
pub fn local_types() {
    #[derive(Debug, Clone, Reflect)] struct L { a: u8 }
    #[derive(Debug, Clone, Reflect)] enum E { L(L), M { l: L } }
    let _ = Reflect::to_value(&E::M { l: L { a: 1 } });
}
"""

def main():
    out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    r = random.Random(seed * 104729 + 7)
    text, reg = z.curated(r, True, n > 0)
    names = [t.e for t in reg] if n == 0 else ["Plain", "En"] + [nm for nm, _, _ in z.perms(r)]
    parts = text + ([PRE, FIXED] if n else [])
    for i in range(n):
        t, e = wild(r, i)
        parts.append(t); names += e
    if n:
        for nm, k, b in [("ClashS", "struct", [Fl("a", S("u8")), Fl("b", SKT, skip=True), Fl("c", S("Vec<u8>"))]), ("ClashT", "tuple", [Fl(None, S("u8")), Fl(None, S("String"))]),
                ("ClashE", "enum", [Va("A", "unit"), Va("B", "tuple", [Fl(None, S("u8")), Fl(None, S("ClashS"))]), Va("C", "struct", [Fl("x", S("ClashT"))])])]:
            parts.append(emit(r, nm, k, b, ordd=True, manual=f"#[allow(dead_code)] impl {nm} {{{CLASHING}}}\n"))
            names.append(nm)
        # an own conversion
        parts.append(emit(r, "OwnT", "tuple", [Fl(None, S("i32")), Fl(None, SKT, skip=True)], from_reflect=False, extra=["#[allow(dead_code)]"], manual='''impl FromReflect for OwnT { fn from_reflect(x: &dyn Reflect) -> Option<Self> {
            if let Some(x) = x.downcast_ref::<OwnT>() { return Some(x.clone()); }
            let n = x.as_tuple_struct().map_or(x.downcast_ref::<i32>(), |t| t.field_at(0)?.downcast_ref::<i32>())?;
            Some(OwnT(*n, Sk(SK_DEFAULT))) } }''', custom="""|m| match m { M::S(Sc::I32(x)) => Conv::Ok(M::TupleStruct(vec![M::S(Sc::I32(*x))])),
            M::TupleStruct(v) => match v.first() { Some(M::S(Sc::I32(x))) => Conv::Ok(M::TupleStruct(vec![M::S(Sc::I32(*x))])), _ => Conv::Fail }, _ => Conv::Fail }"""))
        parts.append(emit(r, "OwnE", "enum", [Va("A", "unit"), Va("B", "tuple", [Fl(None, S("u8"))])], from_reflect=False, clone=False, extra=[], manual='''impl FromReflect for OwnE { fn from_reflect(x: &dyn Reflect) -> Option<Self> {
            if let Some(b) = x.downcast_ref::<bool>() { return b.then_some(OwnE::A); }
            let e = x.as_enum()?;
            match e.variant_name() { "A" => Some(OwnE::A), "B" => Some(OwnE::B(*e.field_at(0)?.downcast_ref::<u8>()?)), _ => None } } }''', custom="""|m| match m { M::S(Sc::Bool(true)) => Conv::Ok(M::Enum("A".into(), F::Unit)),
            M::Enum(n, f) => match (&**n, f) { ("A", F::Unit) => Conv::Ok(m.clone()), ("B", F::Tuple(v)) => match v.first() { Some(M::S(Sc::U8(x))) => Conv::Ok(M::Enum("B".into(), F::Tuple(vec![M::S(Sc::U8(*x))]))), _ => Conv::Fail },
              ("A", _) | ("B", _) => Conv::Unspec, _ => Conv::Fail }, _ => Conv::Fail }"""))
        names += ["OwnT", "OwnE"]
    body = "// generated by tools/wildgen.py\n" + "\n\n".join(parts)
    body += "\n\npub fn registry() -> Vec<(&'static str, fn() -> &'static Ty)> {\n    vec![\n" + "".join(f"        ({rstr(e)}, ty_of::<{e}>),\n" for e in names) + "    ]\n}\n"
    open(out, "w").write(body)

if __name__ == "__main__": main()
