//! C10 C11 C23: dynamic values as ordered, hashable, serialisable data, and how they are built.

use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

use mirror_mirror::enum_::{Enum, EnumValue, VariantField};
use mirror_mirror::key_path::{GetPath, Key, KeyPath, NamedOrNumbered};
use mirror_mirror::struct_::{Struct, StructValue};
use mirror_mirror::tuple::{Tuple, TupleValue};
use mirror_mirror::tuple_struct::{TupleStruct, TupleStructValue};
use mirror_mirror::type_info::ScalarType;
use mirror_mirror::{FromReflect, Reflect, ScalarOwned, TypeDescriptor, Value};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::cmp::Ordering;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mon_type::{check_descriptor, gen_type_path};
use crate::observe::*;
use crate::oracle::{self, default_of, default_recurses, key_path, nav_ty, show_path, TyPos, PK};
use crate::rng::Rng;
use crate::zoo::{gen_sc, gen_string};

// ---------------------------------------------------------------------------------------------
// C10

/// Records everything fed to it, so that equal recordings mean equal hashes with any hasher.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        self.0.iter().fold(7, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3))
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0.extend_from_slice(bytes);
    }
}

fn hashes<T: Hash + ?Sized>(x: &T) -> (u64, u64) {
    let mut d = DefaultHasher::new();
    x.hash(&mut d);
    let mut t = Tape::default();
    x.hash(&mut t);
    (d.finish(), t.finish())
}

/// The laws over a pool of values of one type.
fn laws<T: Ord + Hash + Debug>(pool: &[T], what: &str, o: &mut Obs) -> Res {
    let n = pool.len();
    let mut c = vec![vec![Ordering::Equal; n]; n];
    for i in 0..n {
        for j in 0..n {
            let (a, b) = (&pool[i], &pool[j]);
            let x = a.cmp(b);
            c[i][j] = x;
            ensure!(a.partial_cmp(b) == Some(x), "{what}: partial_cmp and cmp of {a:?} and {b:?} differ");
            ensure!((a == b) == (x == Ordering::Equal), "{what}: == is {} but cmp is {x:?} for {a:?} and {b:?}", a == b);
            ensure!((a != b) != (a == b), "{what}: != and == of {a:?} and {b:?} agree");
            ensure!(
                (a < b) == (x == Ordering::Less) && (a > b) == (x == Ordering::Greater) && (a <= b) == (x != Ordering::Greater) && (a >= b) == (x != Ordering::Less),
                "{what}: operators and cmp of {a:?} and {b:?} differ"
            );
            o.ev("pairs compared");
            if a == b {
                ensure!(hashes(a) == hashes(b), "{what}: equal but hash differently: {a:?} and {b:?}");
                if i != j {
                    o.ev("equal pairs hashed");
                }
            }
        }
        ensure!(c[i][i] == Ordering::Equal, "{what}: {:?} is not equal to itself", pool[i]);
    }
    for i in 0..n {
        for j in 0..n {
            ensure!(c[i][j] == c[j][i].reverse(), "{what}: cmp of {:?} and {:?} is {:?}, the other way round {:?}", pool[i], pool[j], c[i][j], c[j][i]);
            for k in 0..n {
                if c[i][j] != Ordering::Greater && c[j][k] != Ordering::Greater {
                    o.ev("triples checked");
                    ensure!(
                        c[i][k] != Ordering::Greater && (c[i][k] == Ordering::Less) == (c[i][j] == Ordering::Less || c[j][k] == Ordering::Less),
                        "{what}: order is not transitive: {:?} {:?} {:?} {:?} {:?} but {:?}",
                        pool[i], c[i][j], pool[j], c[j][k], pool[k], c[i][k]
                    );
                }
            }
        }
    }
    Ok(())
}

fn natural(a: &Sc, b: &Sc) -> Option<Ordering> {
    Some(match (a, b) {
        (Sc::F32(a), Sc::F32(b)) => total(f32::from_bits(*a) as f64, f32::from_bits(*b) as f64),
        (Sc::F64(a), Sc::F64(b)) => total(f64::from_bits(*a), f64::from_bits(*b)),
        (a, b) if a.kind() == b.kind() => a.cmp(b),
        _ => return None,
    })
}

/// As in Rust; not-a-number equals itself, where it is placed is left open.
fn total(a: f64, b: f64) -> Ordering {
    a.partial_cmp(&b).unwrap_or_else(|| a.is_nan().cmp(&b.is_nan()))
}

/// Another model with the same meaning: other zeros and other not-a-numbers.
fn same_floats(r: &mut Rng, m: &M) -> M {
    let flip = r.u64();
    m.map_scalars(&|s| match s {
        Sc::F32(b) => {
            let x = f32::from_bits(*b);
            if x == 0.0 {
                Sc::F32(if flip & 1 == 0 { 0 } else { 0x8000_0000 })
            } else if x.is_nan() {
                Sc::F32(0x7fc0_0000 | (flip as u32 & 0x803f_ffff))
            } else {
                s.clone()
            }
        }
        Sc::F64(b) => {
            let x = f64::from_bits(*b);
            if x == 0.0 {
                Sc::F64(if flip & 2 == 0 { 0 } else { 1 << 63 })
            } else if x.is_nan() {
                Sc::F64(0x7ff8_0000_0000_0000 | (flip & 0x8007_ffff_ffff_ffff))
            } else {
                s.clone()
            }
        }
        s => s.clone(),
    })
}

fn gen_pool(r: &mut Rng, n: usize) -> Vec<M> {
    let d = r.below(4) as u32;
    let mut pool: Vec<M> = vec![];
    let same_kind = r.chance(1, 3).then(|| *r.pick(&ALL_SK));
    while pool.len() < n {
        let k = r.below(8);
        let m = if pool.is_empty() || k < 2 {
            match same_kind {
                Some(k) => M::S(gen_sc(r, k)),
                None => gen_m(r, d),
            }
        } else {
            let b = r.pick(&pool).clone();
            match k {
                2 | 3 => same_floats(r, &b),
                4 => b,
                5 => M::List(vec![b.clone(), r.pick(&pool).clone()]),
                6 => M::map(vec![(b.clone(), r.pick(&pool).clone())]),
                _ => mutate(r, &b).0,
            }
        };
        if m.size() < 200 {
            pool.push(m);
        }
    }
    pool
}

pub fn c10(cfg: &Cfg, _reg: &Registry) -> Obs {
    each_case(cfg, "values", cfg.n(12_000, 300_000), |o, r| {
        let ms = gen_pool(r, 10);
        o.note(|| ms.iter().map(short).collect::<Vec<_>>().join(" | "));
        let vs: Vec<Value> = ms.iter().map(|m| m.dynamic()).collect();
        // what the values contain, up to zeros and not-a-numbers
        let cs: Vec<M> = vs.iter().map(|v| read_value(v).canon()).collect();
        for c in &cs {
            o.seen(c);
        }
        laws(&vs, "value", o)?;
        let mut ordered = true;
        for i in 0..vs.len() {
            for j in 0..vs.len() {
                let (a, b) = (&cs[i], &cs[j]);
                let want = if a == b {
                    true
                } else if oracle::sort_fields(a) == oracle::sort_fields(b) {
                    ordered = false;
                    continue;
                } else {
                    false
                };
                ensure!((vs[i] == vs[j]) == want, "{} and {} are {} equal", short(a), short(b), if want { "not" } else { "" });
                if let (M::S(x), M::S(y)) = (&ms[i], &ms[j]) {
                    if let Some(n) = natural(x, y) {
                        let nan = |m: &M| m.has_nan();
                        if nan(&ms[i]) == nan(&ms[j]) {
                            ensure!(vs[i].cmp(&vs[j]) == n, "{} and {} are ordered {:?}, natively {n:?}", short(&ms[i]), short(&ms[j]), vs[i].cmp(&vs[j]));
                            o.ev("scalars ordered");
                        }
                    } else {
                        o.ev("scalars of different kinds told apart");
                    }
                }
            }
        }
        // as keys of ordered and hashed collections
        if ordered {
            let classes: HashSet<&M> = cs.iter().collect();
            let mut bt: BTreeMap<Value, usize> = BTreeMap::new();
            let mut hm: HashMap<Value, usize> = HashMap::new();
            let mut last: HashMap<&M, usize> = HashMap::new();
            for (i, v) in vs.iter().enumerate() {
                let was = last.insert(&cs[i], i);
                ensure!(bt.insert(v.clone(), i) == was, "inserting {} in an ordered map gave back the wrong thing", short(&cs[i]));
                ensure!(hm.insert(v.clone(), i) == was, "inserting {} in a hash map gave back the wrong thing", short(&cs[i]));
            }
            ensure!(bt.len() == classes.len() && hm.len() == classes.len(), "{} classes, {} in the ordered map, {} in the hash map", classes.len(), bt.len(), hm.len());
            for (i, v) in vs.iter().enumerate() {
                ensure!(bt.get(v) == last.get(&cs[i]) && hm.get(v) == last.get(&cs[i]), "{} is not found as a key", short(&cs[i]));
                o.ev("keys looked up");
            }
            let keys: Vec<&Value> = bt.keys().collect();
            ensure!(keys.windows(2).all(|w| w[0] < w[1]), "the keys of an ordered map are not in order");
        }
        let mut sorted: Vec<Value> = vs.clone();
        sorted.sort();
        ensure!(sorted.windows(2).all(|w| w[0] <= w[1]), "sorting did not sort");
        // the dynamic containers have the same laws of their own
        let structs: Vec<StructValue> = vs.iter().filter_map(|v| if let Value::StructValue(s) = v { Some((**s).clone()) } else { None }).collect();
        let enums: Vec<EnumValue> = vs.iter().filter_map(|v| if let Value::EnumValue(s) = v { Some((**s).clone()) } else { None }).collect();
        let tuples: Vec<TupleValue> = vs.iter().filter_map(|v| if let Value::TupleValue(s) = v { Some(s.clone()) } else { None }).collect();
        let tss: Vec<TupleStructValue> = vs.iter().filter_map(|v| if let Value::TupleStructValue(s) = v { Some(s.clone()) } else { None }).collect();
        laws(&structs, "struct value", o)?;
        laws(&enums, "enum value", o)?;
        laws(&tuples, "tuple value", o)?;
        laws(&tss, "tuple struct value", o)?;
        let set: BTreeSet<StructValue> = structs.iter().cloned().collect();
        ensure!(structs.iter().all(|s| set.contains(s)), "a struct value is not found in a set");
        o.sample(|| format!("10 values under all laws: {}", short(&ms[0])));
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------------
// C11

pub fn json_safe(m: &M) -> bool {
    match m {
        M::S(Sc::F32(b)) | M::Via(_, Sc::F32(b)) => plain_float(f32::from_bits(*b) as f64),
        M::S(Sc::F64(b)) | M::Via(_, Sc::F64(b)) => plain_float(f64::from_bits(*b)),
        M::Map(v) => v.is_empty(),
        m => m.children().iter().all(|c| json_safe(c)),
    }
}

/// Text in decimal holds it exactly with any reader.
fn plain_float(x: f64) -> bool {
    x.is_finite() && (x == 0.0 || (x.abs() < 1e6 && x.abs() > 1e-3 && (x * 16.0).fract() == 0.0))
}

pub fn depth(m: &M) -> usize {
    1 + m.children().iter().map(|c| depth(c)).max().unwrap_or(0)
}

#[cfg(feature = "serde")]
trait ViaSerde: Serialize + DeserializeOwned {}
#[cfg(feature = "serde")]
impl<T: Serialize + DeserializeOwned> ViaSerde for T {}
#[cfg(not(feature = "serde"))]
trait ViaSerde {}
#[cfg(not(feature = "serde"))]
impl<T> ViaSerde for T {}
#[cfg(feature = "speedy")]
trait ViaSpeedy: for<'a> speedy::Readable<'a, speedy::LittleEndian> + for<'a> speedy::Readable<'a, speedy::BigEndian> + speedy::Writable<speedy::LittleEndian> + speedy::Writable<speedy::BigEndian> {}
#[cfg(feature = "speedy")]
impl<T> ViaSpeedy for T where T: for<'a> speedy::Readable<'a, speedy::LittleEndian> + for<'a> speedy::Readable<'a, speedy::BigEndian> + speedy::Writable<speedy::LittleEndian> + speedy::Writable<speedy::BigEndian> {}
#[cfg(not(feature = "speedy"))]
trait ViaSpeedy {}
#[cfg(not(feature = "speedy"))]
impl<T> ViaSpeedy for T {}
trait Both: ViaSerde + ViaSpeedy {}
impl<T: ViaSerde + ViaSpeedy> Both for T {}

/// Writes and reads back in every format; `cbor` and `json` say whether those can hold it.
fn formats<T: Both>(x: &T, cbor: bool, json: bool, r: &mut Rng, o: &mut Obs) -> Result<Vec<(&'static str, T)>, String> {
    let mut out = vec![];
    #[cfg(feature = "serde")]
    {
        let b = bincode::serialize(x).map_err(|e| format!("bincode cannot write it: {e}"))?;
        out.push(("bincode", bincode::deserialize(&b).map_err(|e| format!("bincode cannot read it: {e}"))?));
        // through readers and writers that deliver little at a time
        let y: T = bincode::deserialize_from(Drip(&b, 1 + r.below(7))).map_err(|e| format!("bincode cannot read it from a stream: {e}"))?;
        out.push(("bincode stream", y));
        if cbor {
            let mut c = vec![];
            ciborium::ser::into_writer(x, &mut c).map_err(|e| format!("ciborium cannot write it: {e}"))?;
            out.push(("ciborium", ciborium::de::from_reader(&c[..]).map_err(|e| format!("ciborium cannot read it: {e}"))?));
            o.ev("cbor round trips");
        }
        if json {
            let s = serde_json::to_string(x).map_err(|e| format!("serde_json cannot write it: {e}"))?;
            out.push(("serde_json", serde_json::from_str(&s).map_err(|e| format!("serde_json cannot read it: {e} in {}", &s[..s.len().min(300)]))?));
            let s = serde_json::to_vec_pretty(x).map_err(|e| format!("serde_json cannot write it: {e}"))?;
            out.push(("serde_json pretty reader", serde_json::from_reader(&s[..]).map_err(|e| format!("serde_json cannot read it from a reader: {e}"))?));
            o.ev("json round trips");
        }
    }
    #[cfg(feature = "speedy")]
    {
        let s = speedy::Writable::<speedy::LittleEndian>::write_to_vec_with_ctx(x, speedy::LittleEndian {}).map_err(|e| format!("speedy cannot write it: {e}"))?;
        out.push(("speedy", <T as speedy::Readable<speedy::LittleEndian>>::read_from_buffer_with_ctx(speedy::LittleEndian {}, &s).map_err(|e| format!("speedy cannot read it: {e}"))?));
        out.push(("speedy stream", <T as speedy::Readable<speedy::LittleEndian>>::read_from_stream_unbuffered_with_ctx(speedy::LittleEndian {}, Drip(&s, 1 + r.below(7))).map_err(|e| format!("speedy cannot read it from a stream: {e}"))?));
        let n = speedy::Writable::<speedy::LittleEndian>::bytes_needed(x).map_err(|e| format!("speedy: {e}"))?;
        ensure!(n == s.len(), "speedy says {n} bytes are needed and writes {}", s.len());
        let s = speedy::Writable::<speedy::BigEndian>::write_to_vec_with_ctx(x, speedy::BigEndian {}).map_err(|e| format!("speedy cannot write it: {e}"))?;
        out.push(("speedy big endian", <T as speedy::Readable<speedy::BigEndian>>::read_from_buffer_with_ctx(speedy::BigEndian {}, &s).map_err(|e| format!("speedy cannot read it: {e}"))?));
    }
    o.evn("round trips", out.len() as u64);
    Ok(out)
}

struct Drip<'a>(&'a [u8], usize);
impl std::io::Read for Drip<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.1).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// ciborium keeps that a float is not a number, not its payload.
fn nan_blind(m: &M) -> M {
    m.map_scalars(&|s| match s {
        Sc::F32(b) if f32::from_bits(*b).is_nan() => Sc::F32(f32::NAN.to_bits()),
        Sc::F64(b) if f64::from_bits(*b).is_nan() => Sc::F64(f64::NAN.to_bits()),
        s => s.clone(),
    })
}

fn same(fmt: &str, want: &M, got: &M) -> Res {
    let ok = if fmt == "ciborium" { nan_blind(want) == nan_blind(got) } else { want == got };
    ensure!(ok, "{fmt}: {}", diff(want, got));
    Ok(())
}

fn check_value_formats(val: &Value, m: &M, r: &mut Rng, o: &mut Obs) -> Result<Vec<(&'static str, Value)>, String> {
    let got = formats(val, depth(m) < 40, depth(m) < 30 && json_safe(m), r, o)?;
    for (f, v) in &got {
        same(f, m, &read_value(v))?;
        let seen = read(v)?;
        same(f, m, &seen)?;
        if *f != "ciborium" || !m.has_nan() {
            ensure!(v == val && hashes(v) == hashes(val) && v.cmp(val) == Ordering::Equal, "{f}: the value read back is not equal to the one written");
        } else {
            ensure!(v == val, "{f}: the value read back is not equal to the one written");
        }
    }
    Ok(got)
}

fn gen_big(r: &mut Rng) -> M {
    let n = *r.pick(&[255usize, 256, 257, 1000, 65_535, 65_536, 70_000]);
    let small = n.min(1000);
    match r.below(9) {
        0 => M::List((0..n).map(|i| M::S(Sc::U8(i as u8))).collect()),
        1 => M::str(&"xy日".repeat(n / 3 + 1)),
        2 => M::Struct((0..small).map(|i| (format!("f{}", (i * 7919) % small * 3 + i % 2), M::S(Sc::U32(i as u32)))).collect::<BTreeMap<_, _>>().into_iter().collect()),
        3 => M::map((0..n.min(5000)).map(|i| (M::S(Sc::I64(i as i64 - 50)), M::S(Sc::Bool(i % 3 == 0)))).collect()),
        4 => M::TupleStruct((0..small).map(|i| M::S(Sc::Usize(i))).collect()),
        5 => M::Tuple((0..small).map(|i| M::S(Sc::I16(i as i16))).collect()),
        6 => M::Enum("V".repeat(small), F::Tuple((0..small).map(|i| M::S(Sc::U16(i as u16))).collect())),
        7 => M::Enum("V".into(), F::Struct((0..small).map(|i| (format!("f{i}"), M::S(Sc::I8(i as i8)))).collect())),
        _ => {
            let d = 3 + r.below(25);
            let mut m = gen_m(r, 1);
            for _ in 0..d {
                m = match r.below(5) {
                    0 => M::List(vec![m]),
                    1 => M::Enum("Some".into(), F::Tuple(vec![m])),
                    2 => M::Struct(vec![("next".into(), m)]),
                    3 => M::Tuple(vec![M::S(Sc::Bool(true)), m]),
                    _ => M::TupleStruct(vec![m]),
                };
            }
            m
        }
    }
}

fn check_inner<T: Both + PartialEq + Debug>(x: &T, m: &M, r: &mut Rng, o: &mut Obs, reader: fn(&T) -> M) -> Res {
    for (f, y) in formats(x, depth(m) < 40, depth(m) < 30 && json_safe(m), r, o)? {
        same(f, m, &reader(&y))?;
        ensure!(y == *x, "{f}: what was read back is not equal to what was written: {y:?}");
    }
    o.ev("dynamic containers");
    Ok(())
}

fn path_model(p: &KeyPath) -> Vec<PK> {
    p.iter()
        .map(|k| match k {
            Key::Field(NamedOrNumbered::Named(n)) => PK::Name(n.clone()),
            Key::Field(NamedOrNumbered::Numbered(n)) => PK::Num(*n),
            Key::Get(v) => PK::Get(read_value(v)),
            Key::Variant(n) => PK::Variant(n.clone()),
        })
        .collect()
}

fn check_path_formats(p: &[PK], r: &mut Rng, o: &mut Obs) -> Result<Vec<KeyPath>, String> {
    let kp = key_path(p);
    let want: Vec<PK> = path_model(&kp);
    let safe = |k: &PK| if let PK::Get(m) = k { json_safe(&m.erased()) } else { true };
    let got = formats(&kp, true, p.iter().all(safe), r, o)?;
    let mut out = vec![];
    for (f, q) in got {
        let nan = p.iter().any(|k| if let PK::Get(m) = k { m.has_nan() } else { false });
        let m = path_model(&q);
        ensure!(m == want || (f == "ciborium" && nan && m.len() == want.len()), "{f}: wrote {} and read {}", show_path(&want), show_path(&m));
        ensure!(q == kp && hashes(&q) == hashes(&kp), "{f}: the path read back is not equal to {}", show_path(p));
        ensure!(q.to_string() == kp.to_string(), "{f}: {q} was {kp}");
        out.push(q);
    }
    if let Some(k) = p.first() {
        let key = k.key();
        for (f, y) in formats(&key, true, safe(k), r, o)? {
            ensure!(y == key, "{f}: key {key} came back as {y}");
        }
        if let Key::Field(nn) = &key {
            for (f, y) in formats(nn, true, true, r, o)? {
                ensure!(y == *nn, "{f}: field {nn} came back as {y}");
            }
        }
    }
    o.ev("key paths");
    Ok(out)
}

pub fn c11(cfg: &Cfg, reg: &Registry) -> Obs {
    let mut all = each_type(cfg, reg, cfg.n(20, 600), |o, r, ty| {
        let (v, m) = gen_value(r, ty);
        o.note(|| format!("type {} value {}", ty.name, short(&m)));
        o.seen(&m);
        let val = v.r().to_value();
        let e = m.erased();
        for (f, x) in check_value_formats(&val, &e, r, o)? {
            let back = match (ty.ops.conv)(&x) {
                Some(b) => b.model(),
                None => return Err(format!("{f}: the value read back no longer converts to {}", ty.name)),
            };
            ensure!(back == m || (f == "ciborium" && m.has_nan()), "{f}: converted back: {}", diff(&m, &back));
            o.ev("values converted afterwards");
        }
        // a path still reaches the same part
        let p = gen_path(r, &m, true, 6);
        for q in check_path_formats(&p, r, o)? {
            match (v.r().at(&key_path(&p)), v.r().at(&q)) {
                (None, None) => o.ev("paths still reaching nothing"),
                (Some(a), Some(b)) => {
                    ensure!(read_s(a) == read_s(b), "{} reaches another part after reading it back", show_path(&p));
                    o.ev("paths still reaching the same part");
                }
                _ => return Err(format!("{} reaches something only before or after", show_path(&p))),
            }
        }
        o.sample(|| format!("{}: {} and {}", ty.name, short(&e), show_path(&p)));
        Ok(())
    });
    // descriptions: once for every type
    all.merge(each_type(cfg, reg, cfg.n(1, 10), |o, r, ty| {
        o.note(|| format!("description of {}", ty.name));
        let d: TypeDescriptor = (ty.ops.desc)().into_owned();
        let safe = |m: &[(&'static str, M)]| m.iter().all(|x| json_safe(&x.1));
        let json = ty.closure().iter().all(|t| {
            safe(&t.meta)
                && match &t.k {
                    K::Struct(f) | K::TupleStruct(f) | K::Tuple(f) => f.iter().all(|f| safe(&f.meta)),
                    K::Enum(v) => v.iter().all(|v| safe(&v.meta) && v.fields.iter().all(|f| safe(&f.meta))),
                    K::Opaque(d) => d.iter().all(json_safe),
                    _ => true,
                }
        });
        if json {
            o.ev("descriptions that json can hold");
        }
        for (f, e) in formats(&d, true, json, r, o)? {
            check_descriptor(ty, &e, o).map_err(|x| format!("{f}: {x}"))?;
            if !default_recurses(ty) {
                let want = default_of(ty).map(|m| m.erased());
                ensure!(e.has_default_value() == want.is_some(), "{f}: has a default value: {}", e.has_default_value());
                let got = e.default_value().map(|v| read_value(&v));
                ensure!(got == want, "{f}: the default value of {} is {got:?}, not {want:?}", ty.name);
            }
            for _ in 0..3 {
                use mirror_mirror::key_path::GetTypePath;
                let p = gen_type_path(r, ty, 6);
                let kp = key_path(&p);
                let got = e.type_at(&kp);
                match (nav_ty(ty, &p), got) {
                    (Some(TyPos::Ty(t)), Some(g)) => ensure!(g.type_name() == t.name, "{f}: {} is {} and not {}", show_path(&p), g.type_name(), t.name),
                    (Some(_), None) => return Err(format!("{f}: nothing at {} in the description read back", show_path(&p))),
                    (None, Some(_)) => return Err(format!("{f}: something at {} in the description read back", show_path(&p))),
                    _ => {}
                }
            }
            ensure!(e == d, "{f}: the description read back is not equal to the one written");
            ensure!(format!("{}", mirror_mirror::type_info::PrettyPrintRoot::pretty_print_root(&e)) == format!("{}", mirror_mirror::type_info::PrettyPrintRoot::pretty_print_root(&d)), "{f}: prints differently");
            o.ev("descriptions read back and compared");
        }
        o.seen(&ty.name);
        Ok(())
    }));
    all.merge(each_case(cfg, "dynamic", cfg.n(3000, 60_000), |o, r| {
        let d = r.below(5) as u32;
        let m = gen_m(r, d);
        if m.size() > 3000 {
            return Ok(());
        }
        o.note(|| short(&m));
        o.seen(&m);
        let val = m.dynamic();
        check_value_formats(&val, &m, r, o)?;
        match &val {
            Value::StructValue(s) => check_inner(&**s, &m, r, o, |s| read_s(s))?,
            Value::EnumValue(s) => check_inner(&**s, &m, r, o, |s| read_s(s))?,
            Value::TupleValue(s) => check_inner(s, &m, r, o, |s| read_s(s))?,
            Value::TupleStructValue(s) => check_inner(s, &m, r, o, |s| read_s(s))?,
            _ => {}
        }
        if let M::S(s) = &m {
            let x: ScalarOwned = scalar_to_owned(s);
            for (f, y) in formats(&x, true, json_safe(&m), r, o)? {
                same(f, &m, &M::S(scalar_owned(&y)))?;
                o.ev("owned scalars");
            }
        }
        let n = if r.chance(1, 50) { 250 + r.below(20) } else { r.below(8) };
        let mut p: Vec<PK> = (0..n).map(|_| gen_key(r)).collect();
        if r.chance(1, 6) {
            p.push(PK::Get(m.clone()));
        }
        check_path_formats(&p, r, o)?;
        Ok(())
    }));
    all.merge(each_case(cfg, "large", cfg.n(60, 1500), |o, r| {
        let m = gen_big(r);
        o.note(|| short(&m));
        o.seen(&m);
        let val = m.dynamic();
        check_value_formats(&val, &m, r, o)?;
        o.ev("large values");
        let n = *r.pick(&[100, 256, 300, 1000]);
        let p: Vec<PK> = (0..n).map(|_| gen_key(r)).collect();
        check_path_formats(&p, r, o)?;
        let s = gen_string(r).repeat(300);
        check_path_formats(&[PK::Name(s.clone()), PK::Variant(s), PK::Num(usize::MAX)], r, o)?;
        Ok(())
    }));
    all.merge(each_case(cfg, "scalar types", 1, |o, r| {
        use ScalarType as T;
        for t in [T::usize, T::u8, T::u16, T::u32, T::u64, T::u128, T::i8, T::i16, T::i32, T::i64, T::i128, T::bool, T::char, T::f32, T::f64, T::String] {
            for (f, u) in formats(&t, true, true, r, o)? {
                ensure!(u == t && u.type_name() == t.type_name(), "{f}: {t:?} came back as {u:?}");
                o.ev("scalar types");
            }
        }
        Ok(())
    }));
    all
}

// ---------------------------------------------------------------------------------------------
// C23

fn check_struct(s: &StructValue, want: &[(String, M)], what: &str) -> Res {
    let m = M::Struct(want.to_vec());
    let got = read(s)?;
    ensure!(got == m, "{what}: {}", diff(&m, &got));
    ensure!(s.fields_len() == want.len() && s.fields().len() == want.len(), "{what}: {} fields instead of {}", s.fields_len(), want.len());
    for (i, (n, m)) in want.iter().enumerate() {
        ensure!(s.name_at(i) == Some(n.as_str()), "{what}: field {i} is called {:?} and not {n:?}", s.name_at(i));
        ensure!(s.field(n).map(read_s).as_ref() == Some(m) && s.field_at(i).map(read_s).as_ref() == Some(m), "{what}: field {n:?} holds something else");
    }
    Ok(())
}

/// The last value given for each name, at the place where the name was first given.
fn fold_fields(ops: &[(String, M)]) -> Vec<(String, M)> {
    let mut out: Vec<(String, M)> = vec![];
    for (n, m) in ops {
        match out.iter_mut().find(|x| x.0 == *n) {
            Some(x) => x.1 = m.clone(),
            None => out.push((n.clone(), m.clone())),
        }
    }
    out
}

fn gen_ops(r: &mut Rng) -> Vec<(String, M)> {
    // now and then many fields, with a few names that come back
    let many = r.chance(1, 40);
    let n = if many { 10 + r.below(60) } else { r.below(9) };
    let few = r.chance(1, 2) && !many;
    let a: Vec<String> = (0..3).map(|_| gen_name(r)).collect();
    (0..n)
        .map(|i| {
            let name = match (many, few) {
                (true, _) if r.chance(1, 8) => format!("f{}", r.below(i + 1)),
                (true, _) => format!("f{i}"),
                (_, true) => r.pick(&a).clone(),
                _ => gen_name(r),
            };
            let d = if many { 0 } else { r.below(3) as u32 };
            (name, gen_m(r, d))
        })
        .collect()
}

/// Builds a struct by a random mix of the ways there are.
fn build_struct(r: &mut Rng, ops: &[(String, M)]) -> StructValue {
    let start = r.below(4);
    let cut = r.below(ops.len() + 1);
    let mut s = match start {
        0 => StructValue::new(),
        1 => StructValue::with_capacity(r.below(20)),
        2 => StructValue::default(),
        _ => ops[..cut].iter().map(|(n, m)| (n.clone(), m.dynamic())).collect::<StructValue>(),
    };
    let from = if start == 3 { cut } else { 0 };
    for (n, m) in &ops[from..] {
        match r.below(3) {
            0 => s = s.with_field(n.clone(), m.dynamic()),
            1 => s.set_field(n.as_str(), m.dynamic()),
            _ => s.set_field(n.clone(), m.dynamic()),
        }
    }
    s
}

fn check_convert<T: FromReflect + PartialEq + Clone>(src: &dyn Reflect, m: &M, fits: bool, what: &str, o: &mut Obs, read_t: fn(&T) -> M) -> Res {
    match (T::from_reflect(src), fits) {
        (Some(t), true) => {
            let got = read_t(&t);
            ensure!(got == m.erased(), "{what}: {}", diff(&m.erased(), &got));
            o.ev("values converted to dynamic containers");
        }
        (None, false) => o.ev("other kinds rejected"),
        (Some(_), false) => return Err(format!("{what}: accepted {}", short(m))),
        (None, true) => return Err(format!("{what}: rejected {}", short(m))),
    }
    Ok(())
}

fn converts_into_dynamic(src: &dyn Reflect, m: &M, o: &mut Obs) -> Res {
    let s = m.shown();
    check_convert::<StructValue>(src, m, matches!(s, M::Struct(_)), "StructValue::from_reflect", o, |t| read_s(t))?;
    check_convert::<TupleStructValue>(src, m, matches!(s, M::TupleStruct(_)), "TupleStructValue::from_reflect", o, |t| read_s(t))?;
    check_convert::<TupleValue>(src, m, matches!(s, M::Tuple(_)), "TupleValue::from_reflect", o, |t| read_s(t))?;
    check_convert::<EnumValue>(src, m, matches!(s, M::Enum(..)), "EnumValue::from_reflect", o, |t| read_s(t))?;
    check_convert::<Value>(src, m, true, "Value::from_reflect", o, read_value)?;
    let v: Value = Value::from(src);
    ensure!(read_value(&v) == m.erased(), "Value::from a reflected value: {}", diff(&m.erased(), &read_value(&v)));
    Ok(())
}

pub fn c23(cfg: &Cfg, reg: &Registry) -> Obs {
    let mut all = each_type(cfg, reg, cfg.n(60, 2000), |o, r, ty| {
        let (v, m) = gen_value(r, ty);
        o.note(|| format!("type {} value {}", ty.name, short(&m)));
        o.seen(&m);
        converts_into_dynamic(v.r(), &m, o)?;
        let val = v.r().to_value();
        converts_into_dynamic(&val, &m.erased(), o)?;
        converts_into_dynamic(val.as_reflect(), &m.erased(), o)?;
        ensure!(v.model() == m, "converting changed the value");
        let native = v.into_value();
        ensure!(read_value(&native) == m.erased(), "From<{}> for Value: {}", ty.name, diff(&m.erased(), &read_value(&native)));
        o.ev("native values converted");
        Ok(())
    });
    all.merge(each_case(cfg, "structs", cfg.n(6000, 300_000), |o, r| {
        let ops = gen_ops(r);
        let want = fold_fields(&ops);
        o.note(|| format!("fields given {ops:?}"));
        o.seen(&ops);
        let a = build_struct(r, &ops);
        check_struct(&a, &want, "struct")?;
        let b = build_struct(r, &ops);
        ensure!(a == b && hashes(&a) == hashes(&b) && a.cmp(&b) == Ordering::Equal, "two ways to build the same struct give different structs");
        if want.len() < ops.len() {
            o.ev("fields given again");
        }
        // giving each once in the final order is the same thing
        let c = build_struct(r, &want);
        ensure!(a == c, "building from the final fields gives another struct");
        ensure!(format!("{a:?}") == format!("{b:?}"), "debug output depends on how it was built");
        ensure!(a.to_value() == b.to_value(), "dynamic values differ");
        let v: Value = a.clone().into();
        ensure!(read_value(&v) == M::Struct(want.clone()), "Value::from a struct: {}", diff(&M::Struct(want.clone()), &read_value(&v)));
        converts_into_dynamic(&a, &M::Struct(want.clone()), o)?;
        // mutable iteration over what was built
        let mut d = a.clone();
        let names: Vec<String> = d.fields_mut().map(|(n, _)| n.to_owned()).collect();
        ensure!(names == want.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "mutable iteration gives {names:?}");
        o.ev("structs built");

        // a struct variant is built the same way
        let name = gen_name(r);
        let mut b = if r.chance(1, 2) { EnumValue::new_struct_variant(name.clone()) } else { EnumValue::new_struct_variant_with_capacity(name.as_str(), r.below(9)) };
        let cut = r.below(ops.len() + 1);
        for (n, m) in &ops[..cut] {
            if r.chance(1, 2) {
                b = b.with_struct_field(n.as_str(), m.dynamic());
            } else {
                b.set_struct_field(n.clone(), m.dynamic());
            }
        }
        let mut e = b.finish();
        for (n, m) in &ops[cut..] {
            if r.chance(1, 2) {
                e = e.with_struct_field(n.as_str(), m.dynamic());
            } else {
                e.set_struct_field(n.clone(), m.dynamic());
            }
        }
        let wm = M::Enum(name.clone(), F::Struct(want.clone()));
        let got = read(&e)?;
        ensure!(got == wm, "struct variant: {}", diff(&wm, &got));
        ensure!(e.fields_len() == want.len(), "struct variant: {} fields", e.fields_len());
        let names: Vec<String> = e.fields().map(|f| if let VariantField::Struct(n, _) = f { n.to_owned() } else { "?".into() }).collect();
        ensure!(names == want.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "struct variant: names {names:?}");
        let mut f = EnumValue::new_struct_variant(name);
        for (n, m) in &want {
            f.set_struct_field(n.clone(), m.dynamic());
        }
        ensure!(e == f.finish(), "two ways to build the same variant give different values");
        converts_into_dynamic(&e, &wm, o)?;
        let v: Value = e.into();
        ensure!(read_value(&v) == wm, "Value::from a variant: {}", diff(&wm, &read_value(&v)));
        o.ev("variants built");
        o.sample(|| format!("given {} fields of {} names", ops.len(), want.len()));
        Ok(())
    }));
    all.merge(each_case(cfg, "tuples", cfg.n(6000, 300_000), |o, r| {
        let ms: Vec<M> = {
            let many = r.chance(1, 40);
            (0..if many { 9 + r.below(60) } else { r.below(9) }).map(|_| { let d = if many { 0 } else { r.below(3) as u32 }; gen_m(r, d) }).collect()
        };
        o.note(|| format!("fields given {ms:?}"));
        o.seen(&ms);
        let cut = r.below(ms.len() + 1);
        let kind = r.below(3);
        let mut t = match kind {
            0 => TupleValue::new(),
            1 => TupleValue::with_capacity(r.below(9)),
            _ => ms[..cut].iter().map(|m| m.dynamic()).collect(),
        };
        let mut ts = match kind {
            0 => TupleStructValue::new(),
            1 => TupleStructValue::with_capacity(r.below(9)),
            _ => ms[..cut].iter().map(|m| m.dynamic()).collect(),
        };
        let mut ev = if r.chance(1, 2) { EnumValue::new_tuple_variant("V") } else { EnumValue::new_tuple_variant_with_capacity("V", 3) };
        for m in &ms[if kind == 2 { cut } else { 0 }..] {
            if r.chance(1, 2) {
                t = t.with_field(m.dynamic());
                ts.push_field(m.dynamic());
            } else {
                t.push_field(m.dynamic());
                ts = ts.with_field(m.dynamic());
            }
        }
        let late = r.below(ms.len() + 1);
        for m in &ms[..late] {
            if r.chance(1, 2) {
                ev = ev.with_tuple_field(m.dynamic());
            } else {
                ev.push_tuple_field(m.dynamic());
            }
        }
        let mut e = ev.finish();
        for m in &ms[late..] {
            if r.chance(1, 2) {
                e = e.with_tuple_field(m.dynamic());
            } else {
                e.push_tuple_field(m.dynamic());
            }
        }
        let tm = M::Tuple(ms.clone());
        let tsm = M::TupleStruct(ms.clone());
        let em = M::Enum("V".into(), F::Tuple(ms.clone()));
        for (got, want, what) in [(read(&t)?, &tm, "tuple"), (read(&ts)?, &tsm, "tuple struct"), (read(&e)?, &em, "tuple variant")] {
            ensure!(got == *want, "{what}: {}", diff(want, &got));
        }
        ensure!(Tuple::fields_len(&t) == ms.len() && TupleStruct::fields_len(&ts) == ms.len() && Enum::fields_len(&e) == ms.len(), "wrong number of fields");
        let t2: TupleValue = ms.iter().map(|m| m.dynamic()).collect();
        let ts2: TupleStructValue = ms.iter().map(|m| m.dynamic()).collect();
        ensure!(t == t2 && hashes(&t) == hashes(&t2), "tuples built in two ways differ");
        ensure!(ts == ts2 && hashes(&ts) == hashes(&ts2), "tuple structs built in two ways differ");
        converts_into_dynamic(&t, &tm, o)?;
        converts_into_dynamic(&ts, &tsm, o)?;
        converts_into_dynamic(&e, &em, o)?;
        ensure!(read_value(&Value::from(t)) == tm && read_value(&Value::from(ts)) == tsm && read_value(&Value::from(e)) == em, "Value::from changed the contents");
        let u = EnumValue::new_unit_variant(gen_name(r));
        ensure!(u.fields_len() == 0 && u.fields().next().is_none(), "a unit variant has fields");
        o.ev("tuples built");
        Ok(())
    }));
    // native values into dynamic values
    all.merge(each_case(cfg, "natives", cfg.n(4000, 100_000), |o, r| {
        let k = *r.pick(&ALL_SK);
        let s = gen_sc(r, k);
        let m = M::S(s.clone());
        o.seen(&m);
        o.note(|| format!("{s:?}"));
        macro_rules! go {
            ($x:expr) => {{
                let x = $x;
                let vs: Vec<(&str, Value, M)> = vec![
                    ("scalar", Value::from(x.clone()), m.clone()),
                    ("box", Value::from(Box::new(x.clone())), m.clone()),
                    ("vec", Value::from(vec![x.clone(), x.clone()]), M::List(vec![m.clone(), m.clone()])),
                    ("array", Value::from([x.clone(), x.clone(), x.clone()]), M::List(vec![m.clone(); 3])),
                    ("empty array", Value::from([(); 0].map(|_| x.clone())), M::List(vec![])),
                    ("map", Value::from(BTreeMap::from([(1_u8, x.clone())])), M::map(vec![(M::S(Sc::U8(1)), m.clone())])),
                    ("option", Value::from(Some(x.clone())), M::Enum("Some".into(), F::Tuple(vec![m.clone()]))),
                    ("reflected", Value::from(&x as &dyn Reflect), m.clone()),
                    ("reflected tuple", Value::from(&(x.clone(), x.clone()) as &dyn Reflect), M::Tuple(vec![m.clone(), m.clone()])),
                    ("nested", Value::from(vec![Box::new(vec![x.clone()])]), M::List(vec![M::List(vec![m.clone()])])),
                ];
                for (what, v, want) in vs {
                    let got = read_value(&v);
                    ensure!(got == want, "Value::from a {what}: {}", diff(&want, &got));
                    o.ev("native conversions");
                }
            }};
        }
        match s {
            Sc::Usize(x) => go!(x),
            Sc::U8(x) => go!(x),
            Sc::U16(x) => go!(x),
            Sc::U32(x) => go!(x),
            Sc::U64(x) => go!(x),
            Sc::U128(x) => go!(x),
            Sc::I8(x) => go!(x),
            Sc::I16(x) => go!(x),
            Sc::I32(x) => go!(x),
            Sc::I64(x) => go!(x),
            Sc::I128(x) => go!(x),
            Sc::Bool(x) => go!(x),
            Sc::Char(x) => go!(x),
            Sc::F32(x) => go!(f32::from_bits(x)),
            Sc::F64(x) => go!(f64::from_bits(x)),
            Sc::Str(x) => {
                let v = Value::from(x.as_str());
                ensure!(read_value(&v) == m, "Value::from &str: {}", diff(&m, &read_value(&v)));
                go!(x)
            }
        }
        Ok(())
    }));
    all
}
