//! C17: sequences of operations with data that does not fit.

use mirror_mirror::key_path::{GetPath, GetTypePath};
use mirror_mirror::try_visit::{try_visit, TryVisit};
use mirror_mirror::type_info::{GetMeta, OpaqueType, Type};
use mirror_mirror::{FromReflect, GetField, GetFieldMut, Reflect, Value};
use std::collections::BTreeMap;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mon_access::{absent_mut, conv, gen_elem, gen_subj, other_variant_names, read_checks, same_key, Subj};
use crate::mon_conv::{gen_source, verdict};
use crate::mon_type::{check_path_everywhere, gen_type_path};
use crate::observe::*;
use crate::oracle::{self, key_path, show_path, PK};
use crate::rng::Rng;

struct Count(usize);
impl TryVisit for Count {
    type Error = usize;
    fn try_visit_opaque(&mut self, _: &dyn Reflect, _: OpaqueType<'_>) -> Result<(), usize> {
        self.0 += 1;
        Ok(())
    }
}

/// Still a well-formed value of its type?
fn well_formed(s: &mut Subj, ty: Option<&'static Ty>, m: &M) -> Res {
    let now = s.model();
    ensure!(now == *m, "{}", diff(m, &now));
    let seen = read(s.r())?;
    ensure!(seen == m.shown(), "the views disagree with the value: {}", diff(&m.shown(), &seen));
    if let Some(t) = ty.filter(|t| !matches!(t.k, K::Any)) {
        match (t.native)(s.r().as_any()) {
            Some(n) => ensure!(n == *m, "natively: {}", diff(m, &n)),
            None => return Err(format!("no longer a {}", t.name)),
        }
        // converting erases some kinds of scalars, which is decided elsewhere
        if let Conv::Ok(want) = oracle::convert(t, m) {
            match (t.ops.conv)(s.r()) {
                Some(c) => ensure!(c.model() == want, "converted from itself: {}", diff(&want, &c.model())),
                None => return Err("no longer converts to its own type".into()),
            }
        }
    }
    Ok(())
}

/// Casts and downcasts that must give nothing.
fn miscasts(o: &mut Obs, x: &mut dyn Reflect) -> Res {
    let kinds = [
        x.as_struct().is_some(),
        x.as_tuple_struct().is_some(),
        x.as_tuple().is_some(),
        x.as_enum().is_some(),
        x.as_array().is_some() && x.as_list().is_none(),
        x.as_list().is_some(),
        x.as_map().is_some(),
        x.as_scalar().is_some(),
        x.reflect_ref().as_opaque().is_some(),
    ];
    // lists also are arrays where the view says so
    let n = kinds.iter().filter(|k| **k).count();
    ensure!(n == 1, "{n} kinds of view match: {kinds:?}");
    ensure!(x.downcast_ref::<BTreeMap<u8, Option<[u128; 7]>>>().is_none(), "downcast to an unrelated type");
    ensure!(x.downcast_mut::<BTreeMap<u8, Option<[u128; 7]>>>().is_none(), "downcast to an unrelated type");
    ensure!(x.downcast_ref::<Option<[u128; 7]>>().is_none(), "downcast to an unrelated type");
    o.ev("miscasts refused");
    Ok(())
}

fn junk_fields(o: &mut Obs, r: &mut Rng, x: &mut dyn Reflect) -> Res {
    let n = gen_name(r);
    let n = format!("{n}?");
    let i = *r.pick(&[usize::MAX, usize::MAX - 1, 1 << 40, 1 << 20]);
    macro_rules! no {
        ($($e:expr),* $(,)?) => {{ $( ensure!($e.is_none(), "{} with {n:?} / {i} gives something", stringify!($e)); )* o.ev("absent fields asked for"); }};
    }
    if let Some(s) = x.as_struct() {
        no!(s.field(&n), s.field_at(i), s.name_at(i), GetField::get_field::<i32>(s, &*n));
    }
    if let Some(s) = x.as_tuple_struct() {
        no!(s.field_at(i), GetField::get_field::<i32>(s, i));
    }
    if let Some(s) = x.as_tuple() {
        no!(s.field_at(i), GetField::get_field::<i32>(s, i));
    }
    if let Some(s) = x.as_enum() {
        no!(s.field(&n), s.field_at(i), s.name_at(i), GetField::get_field::<i32>(s, &*n), GetField::get_field::<i32>(s, i));
    }
    if let Some(s) = x.as_array() {
        no!(s.get(i), GetField::get_field::<i32>(s, i));
    }
    if let Some(s) = x.as_list() {
        no!(s.get(i), GetField::get_field::<i32>(s, i));
    }
    if let Some(s) = x.as_struct_mut() {
        no!(s.field_mut(&n), s.field_at_mut(i), GetFieldMut::get_field_mut::<i32>(&mut *s, &*n));
    }
    if let Some(s) = x.as_tuple_struct_mut() {
        no!(s.field_at_mut(i), GetFieldMut::get_field_mut::<i32>(&mut *s, i));
    }
    if let Some(s) = x.as_tuple_mut() {
        no!(s.field_at_mut(i), GetFieldMut::get_field_mut::<i32>(&mut *s, i));
    }
    if let Some(s) = x.as_enum_mut() {
        no!(s.field_mut(&n), s.field_at_mut(i), GetFieldMut::get_field_mut::<i32>(&mut *s, &*n), GetFieldMut::get_field_mut::<i32>(&mut *s, i));
    }
    if let Some(s) = x.as_array_mut() {
        no!(s.get_mut(i), GetFieldMut::get_field_mut::<i32>(&mut *s, i));
    }
    if let Some(s) = x.as_list_mut() {
        no!(s.get_mut(i), GetFieldMut::get_field_mut::<i32>(&mut *s, i), s.try_remove(i));
    }
    Ok(())
}

/// One operation on the part `x` of type `pty` with contents `part`; gives the new contents when they
/// are specified.
fn op(o: &mut Obs, r: &mut Rng, reg: &Registry, x: &mut dyn Reflect, pty: Option<&'static Ty>, part: &M) -> Result<Option<M>, String> {
    let mut new = part.clone();
    match r.below(12) {
        0 | 1 => {
            let (src, sm) = match (r.below(3), pty) {
                (0, Some(t)) => {
                    let (s, sm, _, _) = gen_source(r, reg, t);
                    (s, sm)
                }
                (1, _) => {
                    let sm = mutate(r, &part.erased()).0;
                    (Box::new(sm.dynamic()) as Box<dyn Reflect>, sm)
                }
                _ => {
                    let t = (r.pick(reg).1)();
                    let (v, sm) = gen_value(r, t);
                    (v.into_reflect(), sm)
                }
            };
            o.note(|| format!("patch {} with {}", short(part), short(&sm)));
            let want = oracle::patch(pty, part, &sm);
            x.patch(&*src);
            o.ev("patches");
            return Ok(want);
        }
        2 => {
            let t = (r.pick(reg).1)();
            o.note(|| format!("convert {} to {}", short(part), t.name));
            let want = oracle::convert(t, part);
            match (want, (t.ops.conv)(&*x)) {
                (Conv::Unspec, _) => {}
                (Conv::Fail, None) => o.ev("foreign conversions refused"),
                (Conv::Ok(m), Some(g)) => {
                    ensure!(g.model() == m, "{}", diff(&m, &g.model()));
                    o.ev("foreign conversions accepted");
                }
                (Conv::Fail, Some(g)) => return Err(format!("accepted as {}", short(&g.model()))),
                (Conv::Ok(m), None) => return Err(format!("refused, expected {}", short(&m))),
            }
        }
        3 => {
            if r.chance(1, 3) {
                let t = (r.pick(reg).1)();
                let (v, vm) = gen_value(r, t);
                o.note(|| format!("compare {} with {} {}", short(part), t.name, short(&vm)));
                verdict(o, &*x, part, v.r(), &vm, "mismatched comparison")?;
            } else {
                // the same with a name, element, scalar or kind changed
                let (vm, l) = mutate(r, &part.erased());
                o.note(|| format!("compare {} with {} ({l})", short(part), short(&vm)));
                verdict(o, &*x, part, &vm.dynamic(), &vm, l)?;
                verdict(o, &part.erased().dynamic(), &part.erased(), &vm.dynamic(), &vm, l)?;
            }
        }
        4 => {
            let n = if r.chance(1, 12) { 1000 } else { 1 + r.below(6) };
            let mut p: Vec<PK> = if r.chance(1, 2) { break_path(r, &gen_path(&mut r.clone(), part, false, 6)) } else { vec![] };
            while p.len() < n {
                p.push(gen_key(r));
            }
            let kp = key_path(&p);
            o.note(|| format!("path {} in {}", show_path(&p), short(part)));
            if let Ok(want) = oracle::nav(pty, part, &p) {
                ensure!(x.at(&kp).is_some() == want.is_some(), "at: {}, expected {}", x.at(&kp).is_some(), want.is_some());
                ensure!(x.at_mut(&kp).is_some() == want.is_some(), "at_mut: {}, expected {}", x.at_mut(&kp).is_some(), want.is_some());
                o.ev(if want.is_some() { "paths that exist" } else { "paths that do not exist" });
            } else {
                let _ = (x.at(&kp).is_some(), x.at_mut(&kp).is_some());
            }
            let text = kp.to_string();
            ensure!(text.is_empty() == p.is_empty() || !p.is_empty(), "text of the path");
        }
        5 => {
            o.note(|| format!("absent fields of {}", short(part)));
            junk_fields(o, r, x)?;
            let others = other_variant_names(pty, part);
            absent_mut(r, x, part, &others)?;
            read_checks(o, r, &*x, part)?;
        }
        6 | 7 => match (&mut new, part) {
            (M::List(v), _) => {
                let ety = match pty.map(|t| &t.k) {
                    Some(K::List(e)) => Some(e()),
                    _ => None,
                };
                let (src, sm) = match ety {
                    Some(_) => {
                        let t = (r.pick(reg).1)();
                        let (v, sm) = gen_value(r, t);
                        (v.into_reflect(), sm)
                    }
                    None => gen_elem(r, reg, ety, None),
                };
                o.note(|| format!("push {} to {}", short(&sm), short(part)));
                let want = conv(ety, &sm);
                let Some(l) = x.as_list_mut() else { return Err("no list".into()) };
                let len = l.len();
                match r.below(3) {
                    0 => {
                        ensure!(l.try_remove(len).is_none() && l.try_remove(usize::MAX).is_none(), "removing past the end gives something");
                        o.ev("removals past the end");
                    }
                    1 => {
                        ensure!(l.get(len).is_none() && l.get_mut(len).is_none(), "element past the end");
                        o.ev("elements past the end");
                    }
                    _ => {
                        if want == Conv::Unspec {
                            return Ok(Some(new));
                        }
                        l.push(&*src);
                        match want {
                            Conv::Ok(c) => {
                                v.push(c);
                                o.ev("pushes that fit");
                            }
                            _ => o.ev("pushes that do not fit"),
                        }
                    }
                }
            }
            (M::Map(v), _) => {
                let (kty, vty) = match pty.map(|t| &t.k) {
                    Some(K::Map(k, v)) => (Some(k()), Some(v())),
                    _ => (None, None),
                };
                let like = if v.is_empty() { None } else { Some(r.pick(v).0.clone()) };
                let (k, km) = if r.chance(1, 2) {
                    gen_elem(r, reg, kty, like.as_ref())
                } else {
                    let t = (r.pick(reg).1)();
                    let (v, sm) = gen_value(r, t);
                    (v.into_reflect(), sm)
                };
                let (e, em) = gen_elem(r, reg, vty, None);
                let (kc, ec) = (conv(kty, &km), conv(vty, &em));
                if kc == Conv::Unspec || ec == Conv::Unspec {
                    return Ok(Some(new));
                }
                o.note(|| format!("entry {} -> {} of {}", short(&km), short(&em), short(part)));
                let at = match &kc {
                    Conv::Ok(c) => v.iter().position(|e| same_key(kty, &e.0, c)),
                    _ => None,
                };
                let Some(map) = x.as_map_mut() else { return Err("no map".into()) };
                ensure!(map.get(&*k).is_some() == at.is_some(), "get: {}", map.get(&*k).is_some());
                ensure!(map.get_mut(&*k).is_some() == at.is_some(), "get_mut: {}", map.get_mut(&*k).is_some());
                if r.chance(1, 2) {
                    let got = map.insert(&*k, &*e);
                    match (kc, ec, at) {
                        (Conv::Ok(_), Conv::Ok(e), Some(i)) => {
                            ensure!(got.is_some(), "insert over an entry gives nothing");
                            v[i].1 = e;
                        }
                        (Conv::Ok(k), Conv::Ok(e), None) => {
                            ensure!(got.is_none(), "insert of a new entry gives something");
                            v.push((k, e));
                        }
                        _ => {
                            ensure!(got.is_none(), "insert of a misfit gives something");
                            o.ev("entries that do not fit");
                        }
                    }
                } else {
                    let got = map.remove(&*k);
                    ensure!(got.is_some() == at.is_some(), "remove: {}", got.is_some());
                    if let Some(i) = at {
                        v.remove(i);
                    } else {
                        o.ev("removals of absent keys");
                    }
                }
                new = M::map(std::mem::take(v));
            }
            (M::Array(v), _) => {
                let n = v.len();
                let Some(l) = x.as_array_mut() else { return Err("no array".into()) };
                ensure!(l.get(n).is_none() && l.get_mut(n).is_none() && l.get(usize::MAX).is_none(), "element past the end");
                o.ev("elements past the end");
            }
            _ => miscasts(o, x)?,
        },
        8 => {
            o.note(|| format!("type paths from {}", short(part)));
            if let Some(t) = pty {
                let d = (t.ops.desc)();
                let good = gen_type_path(r, t, 6);
                let mut p = break_path(r, &good);
                if r.chance(1, 12) {
                    while p.len() < 1000 {
                        p.push(gen_key(r));
                    }
                }
                o.note(|| format!("type path {} of {}", show_path(&p), t.name));
                check_path_everywhere(r, o, t, &d, &p)?;
                let n = gen_name(r) + "?";
                match d.get_type() {
                    Type::Struct(s) => ensure!(s.field_type(&n).is_none() && s.field_type_at(usize::MAX).is_none(), "unknown field {n:?} has a type"),
                    Type::TupleStruct(s) => ensure!(s.field_type_at(usize::MAX).is_none(), "field has a type"),
                    Type::Tuple(s) => ensure!(s.field_type_at(usize::MAX).is_none(), "field has a type"),
                    Type::Enum(s) => ensure!(s.variant(&n).is_none(), "unknown variant {n:?}"),
                    _ => {}
                }
                ensure!(d.get_type().meta(&n).is_none(), "unknown metadata {n:?}");
                o.ev("descriptions asked for what they lack");
            } else {
                let d = Reflect::type_descriptor(&*x);
                let mut p = vec![];
                for _ in 0..1 + r.below(4) {
                    p.push(gen_key(r));
                }
                let _ = d.type_at(&key_path(&p)).map(|t| (t.has_default_value(), t.default_value()));
                o.ev("descriptions asked for what they lack");
            }
        }
        9 => {
            o.note(|| format!("casts of {}", short(part)));
            miscasts(o, x)?;
        }
        10 => {
            o.note(|| format!("copies of {}", short(part)));
            let c = x.clone_reflect();
            ensure!(read(&*c)? == part.shown(), "clone: {}", diff(&part.shown(), &read(&*c)?));
            let s = format!("{:?}{:#?}", x as &dyn Reflect, c);
            ensure!(!s.is_empty() || matches!(part, M::Opaque(..)), "no debug output");
            let mut v = x.to_value();
            let erased = part.erased();
            ensure!(read_value(&v) == erased, "to_value: {}", diff(&erased, &read_value(&v)));
            crate::mon_access::typed_on_value(o, &mut v, &erased)?;
            // misfit conversions to dynamic kinds
            let n = [
                mirror_mirror::struct_::StructValue::from_reflect(&*x).is_some(),
                mirror_mirror::tuple_struct::TupleStructValue::from_reflect(&*x).is_some(),
                mirror_mirror::tuple::TupleValue::from_reflect(&*x).is_some(),
                mirror_mirror::enum_::EnumValue::from_reflect(&*x).is_some(),
            ];
            let k = [matches!(part, M::Struct(_)), matches!(part, M::TupleStruct(_)), matches!(part, M::Tuple(_)), matches!(part, M::Enum(..))];
            ensure!(n == k, "converts to dynamic struct, tuple struct, tuple, enum: {n:?}");
            let before = read(&*c)?;
            for k in 0..8 {
                let d = c.clone_reflect();
                let some = match k {
                    0 => d.into_struct().is_some(),
                    1 => d.into_tuple_struct().is_some(),
                    2 => d.into_tuple().is_some(),
                    3 => d.into_enum().is_some(),
                    4 => d.into_list().is_some(),
                    5 => d.into_map().is_some(),
                    6 => d.into_scalar().is_some(),
                    _ => d.into_array().is_some(),
                };
                let want = match k {
                    0 => matches!(before, M::Struct(_)),
                    1 => matches!(before, M::TupleStruct(_)),
                    2 => matches!(before, M::Tuple(_)),
                    3 => matches!(before, M::Enum(..)),
                    4 => matches!(before, M::List(_)),
                    5 => matches!(before, M::Map(_)),
                    6 => matches!(before, M::S(_)),
                    _ => matches!(before, M::Array(_)),
                };
                ensure!(some == want, "owned cast {k} of {}: {some}", short(&before));
            }
            o.ev("copies and owned miscasts");
        }
        _ => {
            if let Some(t) = pty {
                o.note(|| format!("visit {}", short(part)));
                let d = (t.ops.desc)();
                let mut c = Count(0);
                ensure!(try_visit(&mut c, &*x, d.get_type()).is_ok(), "the visit failed");
                o.ev("visits");
            }
        }
    }
    Ok(Some(new))
}

pub fn c17(cfg: &Cfg, reg: &Registry) -> Obs {
    let all = reg.clone();
    let mut obs = each_type(cfg, reg, cfg.n(30, 600), move |o, r, ty| {
        let (mut s, ty, mut m) = gen_subj(r, ty);
        let name = ty.map_or("dynamic", |t| t.name);
        o.seen(&(name, &m, r.u64()));
        let n = 10 + r.below(21);
        for k in 0..n {
            if m.size() > 3000 {
                break;
            }
            // some part of the value, most often the whole
            let p = if r.chance(1, 2) { vec![] } else { gen_path(r, &m, false, 4) };
            let Ok(Some((pty, part))) = oracle::nav(ty, &m, &p) else { continue };
            let pty = match pty {
                Some(t) if matches!(t.k, K::Any) => None,
                t => t,
            };
            let part = part.clone();
            let kp = key_path(&p);
            let what = |e: String| format!("{name}, step {k} at {}: {e}", show_path(&p));
            let Some(x) = s.r_mut().at_mut(&kp) else { return Err(what("the part is not there".into())) };
            let new = op(o, r, &all, x, pty, &part).map_err(what)?;
            o.ev("operations");
            m = match new {
                // where in the model it sits is found again by the same path
                Some(new) => set_at(ty, &m, &p, &new).ok_or_else(|| what("harness: lost the part".into()))?,
                None => s.model(),
            };
            well_formed(&mut s, ty, &m).map_err(|e| format!("{name}, after step {k} at {}: {e}", show_path(&p)))?;
        }
        o.sample(|| format!("{name}: {n} operations, now {}", short(&m)));
        Ok(())
    });
    obs.merge(each_case(cfg, "deep", cfg.n(48, 1500), |o, r| {
        let n = 100 + r.below(201);
        let m = gen_deep(r, n);
        let other = gen_deep(r, n);
        let seed = r.u64();
        o.seen(&(seed, n));
        let (tx, rx) = std::sync::mpsc::channel();
        // the stack of an ordinary main thread
        let h = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                let res = guarded(|| deep_ops(&m, &other, &mut Rng::new(seed)));
                let _ = tx.send(res);
            })
            .map_err(|e| e.to_string())?;
        let res = rx.recv().map_err(|_| "the thread died".to_string());
        let _ = h.join();
        match res? {
            Ok(x) => x?,
            Err(Ok(m)) | Err(Err(m)) => return Err(m),
        }
        o.ev("deeply nested values");
        o.evn("levels", n as u64);
        Ok(())
    }));
    obs
}

fn set_at(ty: Option<&'static Ty>, m: &M, p: &[PK], new: &M) -> Option<M> {
    let (_, part) = oracle::nav(ty, m, p).ok()??;
    Some(oracle::replace_part(m, part, new))
}

/// A chain of containers.
fn gen_deep(r: &mut Rng, n: usize) -> M {
    let mut m = M::S(Sc::I32(r.below(3) as i32));
    for _ in 0..n {
        let extra = M::S(Sc::U8(r.below(4) as u8));
        m = match r.below(7) {
            0 => M::Struct(vec![("a".into(), extra), ("next".into(), m)]),
            1 => M::TupleStruct(vec![m, extra]),
            2 => M::Tuple(vec![extra, m]),
            3 => M::Enum("V".into(), F::Tuple(vec![m])),
            4 => M::Enum("W".into(), F::Struct(vec![("next".into(), m)])),
            5 => M::List(vec![m, extra]),
            _ => M::map(vec![(M::str("k"), m)]),
        };
    }
    m
}

fn deep_ops(m: &M, other: &M, r: &mut Rng) -> Res {
    let v = m.dynamic();
    let w = other.dynamic();
    let x: &dyn Reflect = &v;
    ensure!(mirror_mirror::reflect_eq(x, &v.to_value()) == Some(true), "a deep value is not equal to its copy");
    ensure!(mirror_mirror::reflect_eq(x, &w) == Some(m == other), "deep values compare wrongly");
    let c = x.clone_reflect();
    ensure!(mirror_mirror::reflect_eq(&*c, x) == Some(true), "a deep clone differs");
    ensure!(Value::from_reflect(&*c).as_ref() == Some(&v), "a deep conversion differs");
    let mut t = v.clone();
    t.patch(&w);
    t.patch(&v);
    let want = oracle::patch(None, m, other).and_then(|n| oracle::patch(None, &n, m));
    if let Some(want) = want {
        ensure!(read_value(&t) == want, "deep patches differ");
    }
    ensure!((v == w) == (m == other) && (v.cmp(&w) == std::cmp::Ordering::Equal) == (m == other), "deep comparison differs");
    let p = gen_path(r, m, false, 1000);
    let kp = key_path(&p);
    if let Ok(want) = oracle::nav(None, m, &p) {
        ensure!(x.at(&kp).is_some() == want.is_some(), "deep path");
        ensure!(t.at_mut(&kp).is_some() || want.is_none() || t != v, "deep mutable path");
    }
    let _ = kp.to_string();
    ensure!(format!("{x:?}").len() > p.len(), "deep debug output");
    let mut h = std::collections::hash_map::DefaultHasher::new();
    std::hash::Hash::hash(&v, &mut h);
    let mut h2 = std::collections::hash_map::DefaultHasher::new();
    std::hash::Hash::hash(&v.to_value(), &mut h2);
    use std::hash::Hasher;
    ensure!(h.finish() == h2.finish(), "deep hash differs");
    Ok(())
}
