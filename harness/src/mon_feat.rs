//! C24: everything observable about one case written down, to be compared between feature selections.

use std::collections::hash_map::DefaultHasher;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};

use mirror_mirror::key_path::{GetPath, GetTypePath};
use mirror_mirror::type_info::GetMeta;
use mirror_mirror::{reflect_eq, FromReflect, Reflect, Value};

use crate::ctx::*;
use crate::gen::*;
use crate::model::*;
use crate::mon_access::visited;
use crate::mon_type::gen_type_path;
use crate::observe::*;
use crate::oracle::{key_path, PK};
use crate::rng::Rng;

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Writes what happens, a panic too.
fn tell(out: &mut String, what: &str, f: impl FnOnce() -> String) {
    let got = match guarded(f) {
        Ok(s) => s,
        // where it panics may differ, not that it does
        Err(Ok(m)) | Err(Err(m)) => format!("panics: {}", m.split_once(": ").map_or("", |x| x.1)),
    };
    let _ = writeln!(out, "{what}: {got}");
}

fn part(x: Option<&dyn Reflect>) -> String {
    match x {
        None => "nothing".into(),
        Some(x) => format!("{} {:?}", x.type_name(), read(x)),
    }
}

/// A source of some kind for conversions, patches and comparisons.
fn source(r: &mut Rng, ty: &'static Ty, m: &M) -> (Box<dyn Reflect>, String) {
    match r.below(5) {
        0 => {
            let (v, m) = gen_value(r, ty);
            (v.into_reflect(), format!("own {}", short(&m)))
        }
        1 => {
            let parts = ty.closure();
            let t = *r.pick(&parts);
            let (v, m) = gen_value(r, t);
            (v.into_reflect(), format!("part {}", short(&m)))
        }
        2 => {
            let m = gen_m(r, 3);
            (Box::new(m.dynamic()), format!("any {}", short(&m)))
        }
        _ => {
            let mut x = m.erased();
            for _ in 0..1 + r.below(3) {
                x = mutate(r, &x).0;
            }
            (Box::new(x.dynamic()), format!("mutated {}", short(&x)))
        }
    }
}

pub fn observe(r: &mut Rng, ty: &'static Ty) -> String {
    let mut out = String::new();
    let o = &mut out;
    let (mut v, m) = gen_value(r, ty);
    let _ = writeln!(o, "value: {}", short(&m));
    tell(o, "views", || format!("{:?}", read(v.r())));
    tell(o, "names", || format!("{} {}", v.r().type_name(), v.r().type_descriptor().get_type().type_name()));
    tell(o, "debug", || format!("{:?}", v.r()));
    tell(o, "debug pretty", || format!("{:#?}", v.r()));
    tell(o, "generic debug", || {
        struct D<'a>(&'a dyn Reflect);
        impl std::fmt::Debug for D<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                mirror_mirror::reflect_debug(self.0, f)
            }
        }
        format!("{:?} {:#?}", D(v.r()), D(v.r()))
    });
    let val = v.r().to_value();
    tell(o, "to_value", || format!("{val:?} {val:#?} {}", hash(&val)));
    tell(o, "clone", || format!("{:?}", read(v.r().clone_reflect().as_reflect())));
    tell(o, "visited", || visited(v.r()));
    tell(o, "value visited", || visited(&val));
    for _ in 0..3 {
        let (s, what) = source(r, ty, &m);
        let _ = writeln!(o, "source: {what}");
        tell(o, "converted", || (ty.ops.conv)(&*s).map_or("nothing".into(), |x| format!("{:?} {:?}", x.model(), x.skips())));
        tell(o, "compared", || format!("{:?} {:?}", reflect_eq(v.r(), &*s), reflect_eq(&*s, v.r())));
        tell(o, "as value", || {
            let w = Value::from_reflect(&*s);
            format!("{w:?} {:?} {}", w.as_ref().map(|w| w.cmp(&val)), hash(&w))
        });
        tell(o, "dynamic patched", || {
            let mut d = val.clone();
            d.patch(&*s);
            format!("{d:?}")
        });
        tell(o, "patched", || {
            v.r_mut().patch(&*s);
            format!("{:?}", read(v.r()))
        });
    }
    let m = v.model();
    for _ in 0..3 {
        let mut p = gen_path(r, &m, true, 6);
        if r.chance(1, 3) {
            p = break_path(r, &p);
        }
        let kp = key_path(&p);
        tell(o, "path", || format!("{kp} {:?} {}", kp, hash(&kp)));
        tell(o, "at", || part(v.r().at(&kp)));
        tell(o, "at_mut", || part(v.r_mut().at_mut(&kp).map(|x| &*x)));
        tell(o, "dynamic at", || part(val.at(&kp)));
    }
    let recurses = crate::oracle::default_recurses(ty);
    for _ in 0..3 {
        let mut p = gen_type_path(r, ty, 6);
        if r.chance(1, 3) {
            p = break_path(r, &p);
        }
        let kp = key_path(&p);
        tell(o, "type_at", || {
            let d = (ty.ops.desc)();
            let Some(x) = d.type_at(&kp) else { return "nothing".into() };
            format!("{} {:?} {:?} {:?}", x.type_name(), x.docs(), x.has_default_value(), if recurses { None } else { x.default_value() })
        });
    }
    if !recurses {
        tell(o, "default", || format!("{:?}", (ty.ops.desc)().default_value()));
    }
    // nodes are numbered after the compiler's type ids, which differ between builds
    tell(o, "description", || crate::mon_conc::walk((ty.ops.desc)().get_type(), 4));
    out
}

fn observe_dynamic(r: &mut Rng) -> String {
    let mut out = String::new();
    let o = &mut out;
    let mut pool: Vec<M> = (0..3).map(|_| gen_m(r, 3)).collect();
    for i in 0..3 {
        let m = mutate(r, &pool[i]).0;
        pool.push(m);
    }
    let mut vals: Vec<Value> = pool.iter().map(|m| m.dynamic()).collect();
    for i in 0..vals.len() {
        let v = &vals[i];
        tell(o, "value", || format!("{v:?} {v:#?} {} {:?}", hash(v), read(v)));
        tell(o, "clone", || format!("{:?} {:?}", v.clone() == *v, v.clone_reflect().to_value() == *v));
        tell(o, "views", || format!("{} {}", v.as_reflect().type_name(), v.type_descriptor().get_type().type_name()));
        let j = r.below(vals.len());
        let w = &vals[j];
        tell(o, "compared", || format!("{:?} {:?} {:?}", v.cmp(w), v == w, reflect_eq(v, w)));
        let p = gen_path(r, &pool[i], true, 6);
        tell(o, "at", || format!("{} {}", key_path(&p), part(v.at(&key_path(&p)))));
        let (a, b) = (vals[i].clone(), vals[r.below(vals.len())].clone());
        tell(o, "patched", || {
            let mut a = a;
            a.patch(&b);
            vals[i] = a;
            format!("{:?}", vals[i])
        });
    }
    tell(o, "sorted", || {
        vals.sort();
        format!("{vals:?}")
    });
    tell(o, "converted", || {
        use mirror_mirror::{enum_::EnumValue, struct_::StructValue, tuple::TupleValue, tuple_struct::TupleStructValue};
        vals.iter()
            .map(|v| {
                format!(
                    "{:?} {:?} {:?} {:?} {:?} {:?} {:?}",
                    StructValue::from_reflect(v).map(|x| x.to_value()),
                    TupleStructValue::from_reflect(v).map(|x| x.to_value()),
                    TupleValue::from_reflect(v).map(|x| x.to_value()),
                    EnumValue::from_reflect(v).map(|x| x.to_value()),
                    <Vec<Value>>::from_reflect(v),
                    <std::collections::BTreeMap<Value, Value>>::from_reflect(v),
                    <Option<u8>>::from_reflect(v)
                )
            })
            .collect()
    });
    tell(o, "keys", || {
        let ks: Vec<PK> = (0..r.below(8)).map(|_| gen_key(r)).collect();
        let k = key_path(&ks);
        format!("{k} {k:?} {} {:?}", hash(&k), k.iter().map(|k| k.to_string()).collect::<Vec<_>>())
    });
    out
}

/// One line per case: label, number, hash.
pub fn trace(cfg: &Cfg, reg: &Registry) -> (Obs, Vec<String>) {
    let lines = Arc::new(Mutex::new(vec![]));
    let l = lines.clone();
    let show = cfg.only.is_some();
    let n = if cfg.thorough { 1500 } else { 200 };
    let jobs: Vec<_> = reg.iter().filter(|x| cfg.wants(x.0)).cloned().collect();
    let o = parallel(cfg, jobs, move |cfg, o, (name, ty)| {
        for i in 0..n {
            case(cfg, o, name, i, |o, r| {
                let text = observe(r, ty());
                o.seen(&text);
                o.evn("observations written", text.lines().count() as u64);
                if show {
                    println!("{text}");
                }
                l.lock().unwrap().push(format!("{name}\t{i}\t{:016x}", hash(&text)));
                Ok(())
            });
        }
    });
    let l = lines.clone();
    let mut o = o;
    if cfg.wants("(dynamic)") {
        o.merge(parallel(cfg, (0..n).collect(), move |cfg, o, j| {
            for i in j * 10..(j + 1) * 10 {
                case(cfg, o, "(dynamic)", i, |o, r| {
                    let text = observe_dynamic(r);
                    o.seen(&text);
                    o.evn("observations written", text.lines().count() as u64);
                    if show {
                        println!("{text}");
                    }
                    l.lock().unwrap().push(format!("(dynamic)\t{i}\t{:016x}", hash(&text)));
                    Ok(())
                });
            }
        }));
    }
    let mut lines = std::mem::take(&mut *lines.lock().unwrap());
    lines.sort();
    (o, lines)
}
