//! C19 C20 C21: text output and key paths as sequences.

use std::fmt::Write;
use std::hash::{Hash, Hasher};

use mirror_mirror::enum_::EnumValue;
use mirror_mirror::key_path::{Key, KeyPath, NamedOrNumbered};
use mirror_mirror::struct_::StructValue;
use mirror_mirror::tuple::TupleValue;
use mirror_mirror::tuple_struct::TupleStructValue;
#[cfg(feature = "std")]
use mirror_mirror::type_info::SimpleTypeName;
use mirror_mirror::type_info::{PrettyPrintRoot, Type};
use mirror_mirror::{key_path, Reflect, Value};

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mon_type::check_node;
use crate::observe::*;
use crate::oracle::{show_path, PK};
use crate::rng::Rng;
use crate::zoo::{dbg_name, gen_string, BOXES};

// ---------------------------------------------------------------------------------------------
// C19

fn cut(s: &str) -> String {
    s.chars().take(500).collect()
}

pub fn c19(cfg: &Cfg, reg: &Registry) -> Obs {
    let reg: Registry = reg.iter().filter(|x| !(x.1)().any_part(|t| matches!(t.k, K::Any))).cloned().collect();
    let mut all = each_type(cfg, &reg, cfg.n(120, 4000), |o, r, ty| {
        let (v, m) = gen_value(r, ty);
        o.note(|| format!("type {} value {}", ty.name, short(&m)));
        o.seen(&(ty.name, &m));
        let mut names: Vec<(&str, String)> = ty.closure().iter().map(|t| (t.name, dbg_name(t.name, true))).filter(|x| x.0 != x.1).collect();
        names.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
        for alt in [false, true] {
            let got = if alt { format!("{:#?}", v.r()) } else { format!("{:?}", v.r()) };
            let boxes = BOXES.with(|b| b.get());
            let full = v.dbg(alt, false);
            if boxes != BOXES.with(|b| b.get()) && got != full && got.contains("Sk(") {
                // whether a boxed value's own native output, excluded fields and all, is used is left open
                o.ev("outputs left open");
                continue;
            }
            let brief = v.dbg(alt, true);
            // how types are named is left open
            ensure!(got == full || got == brief || names.iter().fold(got.clone(), |s, (a, b)| s.replace(a, b)) == brief, "{}formatted as\n    {}\n  natively\n    {}", if alt { "pretty " } else { "" }, cut(&got), cut(&brief));
            o.ev(if alt { "pretty outputs compared" } else { "compact outputs compared" });
            if full != brief {
                o.ev("outputs of types without native output");
            }
            // through the view of its kind
            macro_rules! view {
                ($x:expr) => {{
                    let x = $x;
                    let (a, b) = if alt { (format!("{x:#?}"), format!("{:#?}", x.as_reflect())) } else { (format!("{x:?}"), format!("{:?}", x.as_reflect())) };
                    ensure!(a == b, "the view is formatted as {}, the value as {}", cut(&a), cut(&b));
                    o.ev("views formatted");
                }};
            }
            match v.r().reflect_ref() {
                mirror_mirror::ReflectRef::Struct(x) => view!(x),
                mirror_mirror::ReflectRef::TupleStruct(x) => view!(x),
                mirror_mirror::ReflectRef::Tuple(x) => view!(x),
                mirror_mirror::ReflectRef::Enum(x) => view!(x),
                mirror_mirror::ReflectRef::List(x) => view!(x),
                mirror_mirror::ReflectRef::Array(x) => view!(x),
                mirror_mirror::ReflectRef::Map(x) => view!(x),
                _ => {}
            }
            // inside something else, and through a box
            let nested = if alt { format!("{:#?}", Some(v.r())) } else { format!("{:?}", Some(v.r())) };
            let want = |s: &str| {
                if alt {
                    format!("Some(\n    {},\n)", s.replace('\n', "\n    "))
                } else {
                    format!("Some({s})")
                }
            };
            ensure!(nested == want(&got), "nested, it is formatted as {} and not {}", cut(&nested), cut(&want(&got)));
        }
        ensure!(v.model() == m, "formatting changed the value");
        o.sample(|| format!("{}: {:?}", ty.name, v.r()));
        Ok(())
    });
    // dynamic containers have native output
    all.merge(each_case(cfg, "dynamic", cfg.n(3000, 100_000), |o, r| {
        let d = 1 + r.below(3) as u32;
        let m = gen_m(r, d);
        o.note(|| short(&m));
        o.seen(&m);
        let v = m.dynamic();
        macro_rules! go {
            ($t:ty, $x:expr) => {{
                let x: &$t = $x;
                let y: &dyn Reflect = x;
                ensure!(format!("{y:?}") == format!("{x:?}"), "{} formatted as {}", cut(&format!("{x:?}")), cut(&format!("{y:?}")));
                ensure!(format!("{y:#?}") == format!("{x:#?}"), "{} formatted as {}", cut(&format!("{x:#?}")), cut(&format!("{y:#?}")));
                o.ev("dynamic outputs compared");
            }};
        }
        go!(Value, &v);
        match &v {
            Value::StructValue(x) => go!(StructValue, x),
            Value::EnumValue(x) => go!(EnumValue, x),
            Value::TupleStructValue(x) => go!(TupleStructValue, x),
            Value::TupleValue(x) => go!(TupleValue, x),
            _ => {}
        }
        Ok(())
    }));
    all
}

// ---------------------------------------------------------------------------------------------
// C20

fn read_key(k: &Key) -> PK {
    match k {
        Key::Field(NamedOrNumbered::Named(n)) => PK::Name(n.clone()),
        Key::Field(NamedOrNumbered::Numbered(n)) => PK::Num(*n),
        Key::Get(v) => PK::Get(read_value(v)),
        Key::Variant(n) => PK::Variant(n.clone()),
    }
}

fn text(k: &PK) -> String {
    match k {
        PK::Name(n) => format!(".{n}"),
        PK::Num(i) => format!(".{i}"),
        PK::Variant(n) => format!("::{n}"),
        PK::Get(M::S(s)) => match s {
            Sc::Usize(x) => format!("[{x:?}]"),
            Sc::U8(x) => format!("[{x:?}]"),
            Sc::U16(x) => format!("[{x:?}]"),
            Sc::U32(x) => format!("[{x:?}]"),
            Sc::U64(x) => format!("[{x:?}]"),
            Sc::U128(x) => format!("[{x:?}]"),
            Sc::I8(x) => format!("[{x:?}]"),
            Sc::I16(x) => format!("[{x:?}]"),
            Sc::I32(x) => format!("[{x:?}]"),
            Sc::I64(x) => format!("[{x:?}]"),
            Sc::I128(x) => format!("[{x:?}]"),
            Sc::Bool(x) => format!("[{x:?}]"),
            Sc::Char(x) => format!("[{x:?}]"),
            Sc::F32(x) => format!("[{:?}]", f32::from_bits(*x)),
            Sc::F64(x) => format!("[{:?}]", f64::from_bits(*x)),
            Sc::Str(x) => format!("[{x:?}]"),
        },
        PK::Get(m) => format!("[{:?}]", m.dynamic().as_reflect()),
    }
}

fn push(r: &mut Rng, p: &mut KeyPath, k: &PK) {
    let how = r.below(4);
    let own = std::mem::take(p);
    *p = match (k, how) {
        (_, 3) => {
            let mut q = own;
            q.push(k.key());
            q
        }
        (PK::Name(n), 0) => own.field(n.as_str()),
        (PK::Name(n), 1) => own.field(n.clone()),
        (PK::Num(i), 0 | 1) => own.field(*i),
        (PK::Get(m), 0 | 1) => own.get(m.dynamic()),
        (PK::Variant(n), 0) => own.variant(n.as_str()),
        (PK::Variant(n), 1) => own.variant(n.clone()),
        (k, _) => {
            let mut q = own;
            match k {
                PK::Name(n) => q.push_field(n),
                PK::Num(i) => q.push_field(*i),
                PK::Get(m) => q.push_get(m.dynamic()),
                PK::Variant(n) => q.push_variant(n.as_str()),
            }
            q
        }
    };
}

fn build(r: &mut Rng, ks: &[PK]) -> KeyPath {
    let mut p = KeyPath::default();
    let mut i = 0;
    if let Some(k) = ks.first() {
        match r.below(4) {
            0 => {
                p = KeyPath::from(k.key());
                i = 1;
            }
            1 => {
                p = match k {
                    PK::Name(n) => key_path::field(n),
                    PK::Num(n) => key_path::field(*n),
                    PK::Get(m) => key_path::get(m.dynamic()),
                    PK::Variant(n) => key_path::variant(n.clone()),
                };
                i = 1;
            }
            _ => {}
        }
    }
    while i < ks.len() {
        match r.below(5) {
            0 => {
                let n = 1 + r.below(ks.len() - i);
                p.extend(ks[i..i + n].iter().map(|k| k.key()));
                i += n;
            }
            1 => {
                let n = 1 + r.below(ks.len() - i);
                let tail: KeyPath = ks[i..i + n].iter().map(|k| k.key()).collect();
                p.extend(tail);
                i += n;
            }
            2 => {
                // a wrong key, taken back
                push(r, &mut p, &PK::Name("wrong".into()));
                p.pop();
            }
            _ => {
                push(r, &mut p, &ks[i]);
                i += 1;
            }
        }
    }
    p
}

fn h<T: Hash>(x: &T) -> u64 {
    let mut d = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut d);
    d.finish()
}

fn keys_of<'a>(it: impl Iterator<Item = &'a Key>) -> Vec<PK> {
    it.map(read_key).collect()
}

fn check_path(p: &KeyPath, want: &[PK], r: &mut Rng, o: &mut Obs) -> Res {
    let w = want.to_vec();
    let n = want.len();
    ensure!(p.len() == n && p.is_empty() == (n == 0), "length {} and empty {}", p.len(), p.is_empty());
    ensure!(keys_of(p.iter()) == w, "iteration gives {}", show_path(&keys_of(p.iter())));
    ensure!(keys_of(p.into_iter()) == w, "iteration of a reference gives {}", show_path(&keys_of(p.into_iter())));
    let owned: Vec<Key> = p.clone().into_iter().collect();
    ensure!(keys_of(owned.iter()) == w, "owned iteration gives {}", show_path(&keys_of(owned.iter())));
    let mut back = keys_of(p.iter().rev());
    back.reverse();
    ensure!(back == w, "backward iteration gives {}", show_path(&back));
    let back: Vec<Key> = p.clone().into_iter().rev().collect();
    let mut back = keys_of(back.iter());
    back.reverse();
    ensure!(back == w, "owned backward iteration gives {}", show_path(&back));
    // from both ends, with the lengths along the way
    let mut a = p.iter();
    let mut b = p.clone().into_iter();
    let (mut lo, mut hi) = (0, n);
    loop {
        ensure!(a.len() == hi - lo && a.size_hint() == (hi - lo, Some(hi - lo)), "iterator says {} are left of {}", a.len(), hi - lo);
        ensure!(b.len() == hi - lo && b.size_hint() == (hi - lo, Some(hi - lo)), "owned iterator says {} are left of {}", b.len(), hi - lo);
        let (x, y, want) = if r.chance(1, 2) {
            let e = (lo < hi).then(|| &want[lo]);
            lo += (lo < hi) as usize;
            (a.next(), b.next(), e)
        } else {
            let e = (lo < hi).then(|| &want[hi - 1]);
            hi -= (lo < hi) as usize;
            (a.next_back(), b.next_back(), e)
        };
        ensure!(x.map(read_key).as_ref() == want && y.as_ref().map(read_key).as_ref() == want, "iterating from both ends gave {x:?} and {y:?}");
        if want.is_none() {
            ensure!(a.next().is_none() && a.next_back().is_none() && b.next().is_none(), "the iterator starts again");
            break;
        }
    }
    // breadcrumbs
    let crumbs: Vec<Vec<PK>> = p.breadcrumbs().map(|c| keys_of(c.iter())).collect();
    let wc: Vec<Vec<PK>> = (1..=n).map(|i| want[..i].to_vec()).collect();
    ensure!(crumbs == wc, "breadcrumbs: {crumbs:?}");
    // text
    let t: String = want.iter().map(text).collect();
    ensure!(p.to_string() == t, "text is {} and not {t}", p);
    for (k, w) in p.iter().zip(want) {
        ensure!(k.to_string() == text(w), "text of a key is {k} and not {}", text(w));
        if let Key::Field(f) = k {
            ensure!(f.to_string() == text(w), "text of a field is {f}");
        }
    }
    o.ev("paths read in every way");
    o.evn("keys", n as u64);
    Ok(())
}

/// Paths written with the macro, next to what they mean.
fn macro_table() -> Vec<(KeyPath, Vec<PK>)> {
    use PK::*;
    fn n(s: &str) -> PK {
        Name(s.into())
    }
    fn v(s: &str) -> PK {
        Variant(s.into())
    }
    let i = 7_usize;
    let s = String::from("dyn amic");
    let name = "borrowed";
    vec![
        (key_path!(), vec![]),
        (key_path!(.a), vec![n("a")]),
        (key_path!(.a.b.c), vec![n("a"), n("b"), n("c")]),
        (key_path!(.0), vec![Num(0)]),
        (key_path!(.0 .1), vec![Num(0), Num(1)]),
        (key_path!(.a.0), vec![n("a"), Num(0)]),
        (key_path!(.a .0 .b), vec![n("a"), Num(0), n("b")]),
        (key_path!(.10), vec![Num(10)]),
        (key_path!([0_u8]), vec![Get(M::S(Sc::U8(0)))]),
        (key_path!([0]), vec![Get(M::S(Sc::I32(0)))]),
        (key_path!(["x"]), vec![Get(M::str("x"))]),
        (key_path!([s.clone()]), vec![Get(M::str("dyn amic"))]),
        (key_path!([name]), vec![Get(M::str("borrowed"))]),
        (key_path!([i + 1]), vec![Get(M::S(Sc::Usize(8)))]),
        (key_path!([-1_i64]), vec![Get(M::S(Sc::I64(-1)))]),
        (key_path!([true]['c'][1.5_f64]), vec![Get(M::S(Sc::Bool(true))), Get(M::S(Sc::Char('c'))), Get(M::S(Sc::F64(1.5f64.to_bits())))]),
        (key_path!([vec![1_u8]]), vec![Get(M::List(vec![M::S(Sc::U8(1))]))]),
        (key_path!(::A), vec![v("A")]),
        (key_path!(::Some.0), vec![v("Some"), Num(0)]),
        (key_path!(::A::B), vec![v("A"), v("B")]),
        (key_path!(.a::B.c), vec![n("a"), v("B"), n("c")]),
        (key_path!(.a[1_usize].b), vec![n("a"), Get(M::S(Sc::Usize(1))), n("b")]),
        (key_path!(.a["k"]::V.0[2_u64][3_i8]), vec![n("a"), Get(M::str("k")), v("V"), Num(0), Get(M::S(Sc::U64(2))), Get(M::S(Sc::I8(3)))]),
        (key_path!([0_usize][1_usize].x), vec![Get(M::S(Sc::Usize(0))), Get(M::S(Sc::Usize(1))), n("x")]),
        (key_path!(.type_.r#fn), vec![n("type_"), n("r#fn")]),
        (key_path!(.self_.field.get.variant), vec![n("self_"), n("field"), n("get"), n("variant")]),
        (key_path!(.go::go["go"]), vec![n("go"), v("go"), Get(M::str("go"))]),
        (key_path!(."a b"), vec![n("a b")]),
        (key_path!(.a.b.c.d.e.f.g.h.i.j.k.l.m.n.o.p), "abcdefghijklmnop".chars().map(|c| n(&c.to_string())).collect()),
    ]
}

pub fn c20(cfg: &Cfg, _reg: &Registry) -> Obs {
    let mut all = each_case(cfg, "macro", 1, |o, r| {
        let t = macro_table();
        for (p, want) in &t {
            o.note(|| format!("key_path!({})", show_path(want)));
            check_path(p, want, r, o)?;
            let q = build(r, want);
            ensure!(*p == q && h(p) == h(&q), "the macro and the methods give different paths");
            o.ev("macro paths");
        }
        Ok(())
    });
    all.merge(each_case(cfg, "paths", cfg.n(20_000, 800_000), |o, r| {
        let n = match r.below(10) {
            0 => 0,
            1 => if r.chance(1, 20) { 250 + r.below(20) } else { r.below(60) },
            _ => r.below(8),
        };
        let ks: Vec<PK> = (0..n)
            .map(|_| {
                let k = gen_key(r);
                match k {
                    PK::Get(m) => {
                        let m = if r.chance(1, 4) { gen_m(r, 2) } else { m };
                        PK::Get(read_value(&m.dynamic()))
                    }
                    PK::Name(_) if r.chance(1, 4) => PK::Name(gen_string(r)),
                    k => k,
                }
            })
            .collect();
        o.note(|| show_path(&ks));
        o.seen(&ks);
        let p = build(r, &ks);
        check_path(&p, &ks, r, o)?;
        let q = build(r, &ks);
        ensure!(p == q && h(&p) == h(&q) && p.to_string() == q.to_string(), "two ways to build one path give different paths");
        // popping, down to nothing and once more
        let mut s = p.clone();
        let mut left = ks.clone();
        for _ in 0..r.below(n + 2) {
            s.pop();
            left.pop();
        }
        check_path(&s, &left, r, o)?;
        ensure!(keys_of(p.iter()) == ks, "popping a copy changed the path");
        // equality is equality of the keys
        if n > 0 {
            let mut other = ks.clone();
            let at = r.below(n);
            match r.below(4) {
                0 => {
                    other.remove(at);
                }
                1 => other.insert(at, gen_key(r)),
                2 => {
                    let to = r.below(n);
                    other.swap(at, to);
                }
                _ => other[at] = gen_key(r),
            }
            let canon = |v: &[PK]| v.iter().map(|k| if let PK::Get(m) = k { PK::Get(m.as_key()) } else { k.clone() }).collect::<Vec<_>>();
            let sorted = |v: &[PK]| v.iter().map(|k| if let PK::Get(m) = k { PK::Get(crate::oracle::sort_fields(&m.as_key())) } else { k.clone() }).collect::<Vec<_>>();
            let w = build(r, &other);
            if canon(&ks) == canon(&other) {
                ensure!(w == p && h(&w) == h(&p), "equal keys, different paths");
            } else if sorted(&ks) != sorted(&other) {
                ensure!(w != p, "{} and {} are equal", show_path(&ks), show_path(&other));
                o.ev("different paths told apart");
            }
        }
        o.sample(|| p.to_string());
        Ok(())
    }));
    all
}

// ---------------------------------------------------------------------------------------------
// C21

/// The simplified form of a name as the compiler writes it, by scanning it.
pub fn simplify(full: &str) -> String {
    let cs: Vec<char> = full.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let word = |c: char| c.is_alphanumeric() || c == '_' || c == '#';
    while i < cs.len() {
        if cs[i] == '\'' {
            // a lifetime, and what separates it from the next argument
            let mut j = i + 1;
            while j < cs.len() && word(cs[j]) {
                j += 1;
            }
            if cs[j..].starts_with(&[',', ' ']) {
                j += 2;
            } else if cs.get(j) == Some(&' ') {
                j += 1;
            } else if out.ends_with(", ") {
                out.truncate(out.len() - 2);
            }
            i = j;
        } else if word(cs[i]) {
            let start = i;
            while i < cs.len() && word(cs[i]) {
                i += 1;
            }
            if i + 1 < cs.len() && cs[i] == ':' && cs[i + 1] == ':' {
                i += 2;
            } else {
                out.extend(&cs[start..i]);
            }
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    out.replace("<>", "")
}

#[cfg(not(feature = "std"))]
fn simple(name: &str) -> Option<String> {
    Some(simplify(name))
}

#[cfg(feature = "std")]
fn simple(name: &str) -> Option<String> {
    let s = SimpleTypeName::new(name)?;
    let mut out = String::new();
    write!(out, "{s}").ok()?;
    Some(out)
}

const IDENTS: [&str; 24] = [
    "Foo", "Bar", "u8", "String", "_Foo", "__Bar", "Foo_", "F00", "foo", "A", "Option", "Vec", "Result", "Über", "名前", "_0", "Box", "i128", "Some", "T", "_a", "X_y_Z",
    "bool", "r#type",
];
const MODS: [&str; 12] = ["core", "alloc", "a", "b_c", "_private", "_", "__x", "test_mod", "Foo", "m0", "string", "r#mod"];

/// A type name, full and simplified.
fn gen_type_name(r: &mut Rng, d: u32, full: &mut String, brief: &mut String) {
    let k = if d == 0 { 0 } else { r.below(8) };
    match k {
        0..=3 => {
            for i in 0..r.below(4) {
                let m = r.pick(&MODS);
                // an unnamed const cannot be the first part of a path
                if i == 0 && *m == "_" {
                    full.push_str("m::");
                }
                full.push_str(m);
                full.push_str("::");
            }
            let id = r.pick(&IDENTS);
            full.push_str(id);
            brief.push_str(id);
            if d > 0 && r.chance(2, 3) {
                let n = r.below(4);
                let (mut fs, mut bs) = (vec![], vec![]);
                if r.chance(1, 5) {
                    fs.push("'a".to_string());
                    if r.chance(1, 3) {
                        fs.push("'static".to_string());
                    }
                }
                for _ in 0..n {
                    let (mut f, mut b) = (String::new(), String::new());
                    gen_type_name(r, d - 1, &mut f, &mut b);
                    fs.push(f);
                    bs.push(b);
                }
                if r.chance(1, 4) {
                    let c = match r.below(4) {
                        0 => "true".to_string(),
                        1 => "false".to_string(),
                        2 => r.u64().to_string(),
                        _ => r.below(40).to_string(),
                    };
                    fs.push(c.clone());
                    bs.push(c);
                }
                if !fs.is_empty() {
                    full.push('<');
                    full.push_str(&fs.join(", "));
                    full.push('>');
                }
                if !bs.is_empty() {
                    brief.push('<');
                    brief.push_str(&bs.join(", "));
                    brief.push('>');
                }
            }
        }
        4 => {
            let n = r.below(5);
            full.push('(');
            brief.push('(');
            for i in 0..n {
                gen_type_name(r, d - 1, full, brief);
                if i + 1 < n {
                    full.push_str(", ");
                    brief.push_str(", ");
                }
            }
            if n == 1 {
                full.push(',');
                brief.push(',');
            }
            full.push(')');
            brief.push(')');
        }
        5 => {
            full.push('[');
            brief.push('[');
            gen_type_name(r, d - 1, full, brief);
            let n = if r.chance(1, 4) { r.u64() >> 1 } else { r.below(100) as u64 };
            let _ = write!(full, "; {n}]");
            let _ = write!(brief, "; {n}]");
        }
        6 => {
            full.push('&');
            brief.push('&');
            if r.chance(1, 5) {
                full.push_str("'a ");
            }
            gen_type_name(r, d - 1, full, brief);
        }
        _ => {
            full.push_str("&mut ");
            brief.push_str("&mut ");
            gen_type_name(r, d - 1, full, brief);
        }
    }
}

const UNSUPPORTED: [&str; 12] = [
    "fn() -> i32",
    "fn(a::B) -> c::D",
    "dyn core::fmt::Debug",
    "dyn a::Trait<b::C>",
    "*const a::B",
    "*mut u8",
    "!",
    "[a::B]",
    "<a::B as c::D>::E",
    "dyn a::B + c::D",
    "unsafe extern \"C\" fn(u8)",
    "m::f::{{closure}}",
];

fn field_name(f: &FieldTy) -> String {
    f.name.unwrap_or("?").to_string()
}

/// A type's name as declarations print it: without the standard library names are not simplified.
pub fn shown(full: &str) -> String {
    if cfg!(feature = "std") {
        simplify(full)
    } else {
        full.to_owned()
    }
}

/// What the declaration prints as.
pub fn pretty(ty: &Ty) -> String {
    let s = |t: TyFn| shown(t().name);
    let list = |f: &[FieldTy]| f.iter().map(|f| s(f.ty)).collect::<Vec<_>>().join(", ");
    match &ty.k {
        K::Struct(f) if f.is_empty() => format!("struct {} {{}}", shown(ty.name)),
        K::Struct(f) => {
            let mut out = format!("struct {} {{\n", shown(ty.name));
            for f in f {
                out += &format!("    {}: {},\n", field_name(f), s(f.ty));
            }
            out + "}"
        }
        K::TupleStruct(f) => format!("struct {}({})", shown(ty.name), list(f)),
        K::Tuple(f) => format!("({})", list(f)),
        K::Enum(vs) => {
            let mut out = format!("enum {} {{", shown(ty.name));
            if !vs.is_empty() {
                out.push('\n');
            }
            for v in vs {
                out += "    ";
                out += v.name;
                match v.kind {
                    VK::Unit => {}
                    VK::Tuple => out += &format!("({})", list(&v.fields)),
                    VK::Struct if v.fields.is_empty() => out += " {}",
                    VK::Struct => {
                        out += " {\n";
                        for f in &v.fields {
                            out += &format!("        {}: {},\n", field_name(f), s(f.ty));
                        }
                        out += "    }";
                    }
                }
                out += ",\n";
            }
            out + "}"
        }
        K::List(t) => format!("[{}]", s(*t)),
        K::Array(t, n) => format!("[{}; {n}]", s(*t)),
        K::Map(k, v) => format!("[{}: {}]", s(*k), s(*v)),
        K::Scalar(_) => simplify(ty.name),
        K::Via(..) | K::Opaque(_) | K::Any => shown(ty.name),
    }
}

fn root_of(t: &Type<'_>) -> String {
    match t {
        Type::Struct(x) => x.pretty_print_root().to_string(),
        Type::TupleStruct(x) => x.pretty_print_root().to_string(),
        Type::Tuple(x) => x.pretty_print_root().to_string(),
        Type::Enum(x) => x.pretty_print_root().to_string(),
        Type::List(x) => x.pretty_print_root().to_string(),
        Type::Array(x) => x.pretty_print_root().to_string(),
        Type::Map(x) => x.pretty_print_root().to_string(),
        Type::Scalar(x) => x.pretty_print_root().to_string(),
        Type::Opaque(x) => x.pretty_print_root().to_string(),
    }
}

#[allow(dead_code)]
#[derive(Debug, Clone, mirror_mirror::Reflect)]
struct Lettered<const C: char, const B: bool, const N: i64> {
    a: u8,
    b: Vec<u8>,
}

pub fn c21(cfg: &Cfg, reg: &Registry) -> Obs {
    let mut all = each_type(cfg, reg, 1, |o, _r, ty| {
        o.note(|| format!("type {}", ty.name));
        let d = (ty.ops.desc)();
        let want = pretty(ty);
        let got = d.pretty_print_root().to_string();
        ensure!(got == want, "{} prints as\n{got}\ninstead of\n{want}", ty.name);
        o.seen(&want);
        let mut todo = vec![(ty, d.get_type())];
        let mut seen = std::collections::HashSet::new();
        while let Some((t, x)) = todo.pop() {
            if !seen.insert(t as *const Ty) {
                continue;
            }
            let want = pretty(t);
            for got in [root_of(&x), x.pretty_print_root().to_string()] {
                ensure!(got == want, "{} prints as\n{got}\ninstead of\n{want}", t.name);
            }
            o.ev("declarations printed");
            o.seen(&want);
            let s = simple(t.name);
            ensure!(s.as_deref() == Some(&*simplify(t.name)), "{} is simplified to {s:?}", t.name);
            o.ev("names of described types");
            for (_, a, b) in check_node(t, x, o)? {
                todo.push((a, b));
            }
        }
        o.sample(|| want.clone());
        Ok(())
    });
    #[cfg(feature = "std")]
    all.merge(each_case(cfg, "names", cfg.n(40_000, 2_000_000), |o, r| {
        let (mut f, mut b) = (String::new(), String::new());
        let d = r.below(4) as u32;
        gen_type_name(r, d, &mut f, &mut b);
        if f.len() > 2000 {
            return Ok(());
        }
        o.note(|| f.clone());
        o.seen(&f);
        let got = simple(&f);
        ensure!(got.as_deref() == Some(&*b), "simplified to {got:?} instead of {b}");
        o.ev("names simplified");
        // simplifying again changes nothing
        let again = simple(&b);
        ensure!(again.as_deref() == Some(&*b), "{b} is simplified to {again:?}");
        // something unsupported inside is never turned into a wrong name
        if r.chance(1, 4) {
            let u = *r.pick(&UNSUPPORTED);
            let (name, want) = match r.below(5) {
                0 => (u.to_string(), simplify(u)),
                1 => (format!("a::Foo<{u}, {f}>"), format!("Foo<{}, {b}>", simplify(u))),
                2 => (format!("({f}, {u})"), format!("({b}, {})", simplify(u))),
                3 => (format!("&{u}"), format!("&{}", simplify(u))),
                _ => (format!("[{u}; 3]"), format!("[{}; 3]", simplify(u))),
            };
            o.note(|| name.clone());
            match simple(&name) {
                None => o.ev("unsupported names rejected"),
                Some(s) => ensure!(s == want, "unsupported type {name} is simplified to {s}"),
            }
        }
        Ok(())
    }));
    #[cfg(feature = "std")]
    all.merge(each_case(cfg, "compiler names", 1, |o, _r| {
        macro_rules! t {
            ($($t:ty => $s:expr),* $(,)?) => {{ $(
                let got = SimpleTypeName::new_from_type::<$t>().to_string();
                ensure!(got == $s, "{} is simplified to {got} instead of {}", std::any::type_name::<$t>(), $s);
                o.ev("names written by the compiler");
            )* }};
        }
        use fn_item::*;
        t!(
            String => "String", () => "()", (u8,) => "(u8,)", (u8, String) => "(u8, String)", [Option<u8>; 3] => "[Option<u8>; 3]",
            &'static str => "&str", &'static mut Vec<String> => "&mut Vec<String>", _Under<_Under<u8>> => "_Under<_Under<u8>>",
            Life<'static, String, 4> => "Life<String, 4>", Conv<true, 5> => "Conv<true, 5>",
            std::collections::BTreeMap<Vec<(i32, Option<bool>)>, Result<(), Box<String>>> => "BTreeMap<Vec<(i32, Option<bool>)>, Result<(), Box<String>>>",
            std::rc::Rc<std::cell::RefCell<Vec<&'static [u8; 2]>>> => "Rc<RefCell<Vec<&[u8; 2]>>>",
            std::marker::PhantomData<fn_item::Thing> => "PhantomData<Thing>",
        );
        // names that cannot be simplified are printed in full
        for (d, want) in [(<Lettered<'x', true, 5> as mirror_mirror::DescribeType>::type_descriptor(), std::any::type_name::<Lettered<'x', true, 5>>())] {
            let got = d.pretty_print_root().to_string();
            let w = format!("struct {want} {{\n    a: u8,\n    b: Vec<u8>,\n}}");
            ensure!(got == w, "{want} prints as\n{got}");
            o.ev("declarations printed");
        }
        Ok(())
    }));
    all
}

#[allow(dead_code)]
mod fn_item {
    pub struct Thing;
    pub struct _Under<T>(T);
    pub struct Life<'a, T: 'a, const N: usize>(&'a [T; N]);
    pub struct Conv<const B: bool, const I: i8>;
}
