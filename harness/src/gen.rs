//! Generators of dynamic models, near-misses of a model, and paths.

use crate::model::*;
use crate::oracle::PK;
use crate::rng::Rng;
use crate::zoo::*;

pub const NAMES: [&str; 22] = [
    "a", "b", "x", "y", "name", "value", "index", "field", "fields", "0", "1", "", "r#type",
    "日本", "Some", "None", "Ok", "A", "B", "start", "end", "a.b",
];

pub fn gen_name(r: &mut Rng) -> String {
    if r.chance(1, 8) {
        gen_string(r)
    } else {
        r.pick(&NAMES).to_string()
    }
}

fn gen_named(r: &mut Rng, d: u32) -> Vec<(String, M)> {
    let n = gen_len(r, d);
    let mut out: Vec<(String, M)> = vec![];
    for _ in 0..n {
        let name = gen_name(r);
        if out.iter().all(|x| x.0 != name) {
            let m = gen_m(r, d.saturating_sub(1));
            out.push((name, m));
        }
    }
    out
}

fn gen_many(r: &mut Rng, d: u32) -> Vec<M> {
    (0..gen_len(r, d)).map(|_| gen_m(r, d.saturating_sub(1))).collect()
}

/// Any dynamic value (no typed-only kinds).
pub fn gen_m(r: &mut Rng, d: u32) -> M {
    if d == 0 || r.chance(1, 4) {
        let k = *r.pick(&ALL_SK);
        return M::S(gen_sc(r, k));
    }
    match r.below(8) {
        0 => M::Struct(gen_named(r, d)),
        1 => M::TupleStruct(gen_many(r, d)),
        2 => M::Tuple(gen_many(r, d)),
        3 | 4 => {
            let n = gen_name(r);
            M::Enum(
                n,
                match r.below(3) {
                    0 => F::Unit,
                    1 => F::Tuple(gen_many(r, d)),
                    _ => F::Struct(gen_named(r, d)),
                },
            )
        }
        5 | 6 => {
            if r.chance(1, 2) {
                // homogeneous
                let k = *r.pick(&ALL_SK);
                let n = gen_len(r, d);
                M::List((0..n).map(|_| M::S(gen_sc(r, k))).collect())
            } else {
                M::List(gen_many(r, d))
            }
        }
        _ => {
            let n = gen_len(r, d);
            let mut out: Vec<(M, M)> = vec![];
            for _ in 0..n {
                let k = gen_m(r, d.saturating_sub(1));
                let c = k.as_key();
                if out.iter().all(|e| e.0.as_key() != c) {
                    let v = gen_m(r, d.saturating_sub(1));
                    out.push((k, v));
                }
            }
            M::map(out)
        }
    }
}

/// A different scalar of the same kind.
pub fn other_scalar(r: &mut Rng, s: &Sc) -> Sc {
    for _ in 0..20 {
        let t = gen_sc(r, s.kind());
        if !t.total_eq(s) {
            return t;
        }
    }
    match s {
        Sc::Bool(b) => Sc::Bool(!b),
        Sc::Str(s) => Sc::Str(format!("{s}!")),
        Sc::Char('a') => Sc::Char('b'),
        Sc::Char(_) => Sc::Char('a'),
        _ => gen_sc(r, s.kind()),
    }
}

/// Rebuilds `m` with node number `at` (preorder) replaced.
pub fn replace_node(m: &M, at: usize, f: &mut dyn FnMut(&M) -> M) -> M {
    fn go(m: &M, at: &mut isize, f: &mut dyn FnMut(&M) -> M) -> M {
        if *at == 0 {
            *at = -1;
            return f(m);
        }
        if *at < 0 {
            return m.clone();
        }
        *at -= 1;
        let mut many = |v: &Vec<M>, at: &mut isize| v.iter().map(|x| go(x, at, f)).collect::<Vec<_>>();
        match m {
            M::S(_) | M::Via(..) | M::Opaque(..) | M::Enum(_, F::Unit) => m.clone(),
            M::TupleStruct(v) => M::TupleStruct(many(v, at)),
            M::Tuple(v) => M::Tuple(many(v, at)),
            M::List(v) => M::List(many(v, at)),
            M::Array(v) => M::Array(many(v, at)),
            M::Enum(n, F::Tuple(v)) => M::Enum(n.clone(), F::Tuple(many(v, at))),
            M::Struct(v) => M::Struct(v.iter().map(|(n, x)| (n.clone(), go(x, at, f))).collect()),
            M::Enum(n, F::Struct(v)) => M::Enum(
                n.clone(),
                F::Struct(v.iter().map(|(n, x)| (n.clone(), go(x, at, f))).collect()),
            ),
            M::Map(v) => {
                M::map(v.iter().map(|(k, x)| (go(k, at, f), go(x, at, f))).collect())
            }
        }
    }
    let mut at = at as isize;
    go(m, &mut at, f)
}

fn dedup_maps(m: &M) -> M {
    let many = |v: &Vec<M>| v.iter().map(dedup_maps).collect::<Vec<_>>();
    let named =
        |v: &Vec<(String, M)>| v.iter().map(|(n, m)| (n.clone(), dedup_maps(m))).collect::<Vec<_>>();
    match m {
        M::S(_) | M::Via(..) | M::Opaque(..) | M::Enum(_, F::Unit) => m.clone(),
        M::TupleStruct(v) => M::TupleStruct(many(v)),
        M::Tuple(v) => M::Tuple(many(v)),
        M::List(v) => M::List(many(v)),
        M::Array(v) => M::Array(many(v)),
        M::Enum(n, F::Tuple(v)) => M::Enum(n.clone(), F::Tuple(many(v))),
        M::Struct(v) => M::Struct(named(v)),
        M::Enum(n, F::Struct(v)) => M::Enum(n.clone(), F::Struct(named(v))),
        M::Map(v) => {
            let mut out: Vec<(M, M)> = vec![];
            for (k, x) in v {
                let (k, x) = (dedup_maps(k), dedup_maps(x));
                if out.iter().all(|e| e.0.as_key() != k.as_key()) {
                    out.push((k, x));
                }
            }
            M::map(out)
        }
    }
}

/// A dynamic model that differs from `m` (which must be dynamic) in one place, and what was done.
pub fn mutate(r: &mut Rng, m: &M) -> (M, &'static str) {
    let at = r.below(m.size());
    let mut label = "";
    let out = replace_node(m, at, &mut |n| {
        let (x, l) = mutate_here(r, n);
        label = l;
        x
    });
    (dedup_maps(&out), label)
}

fn mutate_many(r: &mut Rng, v: &[M]) -> (Vec<M>, &'static str) {
    let mut v = v.to_vec();
    match r.below(4) {
        0 => {
            v.push(gen_m(r, 1));
            (v, "extra element")
        }
        1 if !v.is_empty() => {
            let i = r.below(v.len());
            v.remove(i);
            (v, "missing element")
        }
        2 if v.len() >= 2 => {
            let i = r.below(v.len());
            let j = r.below(v.len());
            v.swap(i, j);
            (v, "swapped elements")
        }
        _ => {
            if let Some(x) = v.last().cloned() {
                v.push(x);
                (v, "repeated element")
            } else {
                v.push(gen_m(r, 1));
                (v, "extra element")
            }
        }
    }
}

fn mutate_named(r: &mut Rng, v: &[(String, M)]) -> (Vec<(String, M)>, &'static str) {
    let mut v = v.to_vec();
    match r.below(5) {
        0 => {
            let n = gen_name(r);
            if v.iter().all(|x| x.0 != n) {
                let at = r.below(v.len() + 1);
                v.insert(at, (n, gen_m(r, 1)));
            }
            (v, "surplus field")
        }
        1 if !v.is_empty() => {
            let i = r.below(v.len());
            v.remove(i);
            (v, "missing field")
        }
        2 if !v.is_empty() => {
            let i = r.below(v.len());
            let mut n = format!("{}_", v[i].0);
            while v.iter().any(|x| x.0 == n) {
                n.push('_');
            }
            v[i].0 = n;
            (v, "renamed field")
        }
        3 if v.len() >= 2 => {
            let i = r.below(v.len());
            let x = v.remove(i);
            let j = r.below(v.len() + 1);
            v.insert(j, x);
            (v, "reordered fields")
        }
        _ => {
            if v.len() >= 2 {
                // contents exchanged
                let i = r.below(v.len());
                let j = r.below(v.len());
                let x = v[i].1.clone();
                v[i].1 = v[j].1.clone();
                v[j].1 = x;
            } else {
                v.reverse();
            }
            (v, "exchanged contents")
        }
    }
}

fn mutate_here(r: &mut Rng, m: &M) -> (M, &'static str) {
    if r.chance(1, 10) {
        return (gen_m(r, 2), "replaced");
    }
    match m {
        M::S(s) => match r.below(4) {
            0 => {
                let k = *r.pick(&ALL_SK);
                (M::S(gen_sc(r, k)), "other scalar kind")
            }
            1 => {
                // same number, other kind
                match s.as_index() {
                    Some(i) => {
                        let k = *r.pick(&ALL_SK);
                        match Sc::index_of_kind(k, i) {
                            Some(t) => (M::S(t), "same number, other kind"),
                            None => (M::S(other_scalar(r, s)), "other scalar"),
                        }
                    }
                    None => (M::S(other_scalar(r, s)), "other scalar"),
                }
            }
            2 => (M::List(vec![m.clone()]), "wrapped"),
            _ => (M::S(other_scalar(r, s)), "other scalar"),
        },
        M::Struct(v) => {
            if r.chance(1, 6) {
                let v2: Vec<M> = v.iter().map(|x| x.1.clone()).collect();
                return match r.below(4) {
                    0 => (M::TupleStruct(v2), "kind changed"),
                    1 => (M::Tuple(v2), "kind changed"),
                    2 => (M::List(v2), "kind changed"),
                    _ => (
                        M::map(v.iter().map(|(n, x)| (M::str(n), x.clone())).collect()),
                        "kind changed",
                    ),
                };
            }
            let (v, l) = mutate_named(r, v);
            (M::Struct(v), l)
        }
        M::TupleStruct(v) | M::Tuple(v) | M::List(v) => {
            if r.chance(1, 6) {
                return (
                    match r.below(4) {
                        0 => M::TupleStruct(v.clone()),
                        1 => M::Tuple(v.clone()),
                        2 => M::List(v.clone()),
                        _ => M::Enum("Some".into(), F::Tuple(v.clone())),
                    },
                    "kind changed",
                );
            }
            let (v, l) = mutate_many(r, v);
            (
                match m {
                    M::TupleStruct(_) => M::TupleStruct(v),
                    M::Tuple(_) => M::Tuple(v),
                    _ => M::List(v),
                },
                l,
            )
        }
        M::Enum(n, f) => match r.below(4) {
            0 => (M::Enum(gen_name(r), f.clone()), "other variant name"),
            1 => {
                let f2 = match (f, r.below(2)) {
                    (F::Unit, 0) => F::Tuple(vec![]),
                    (F::Unit, _) => F::Struct(vec![]),
                    (F::Tuple(_), 0) => F::Unit,
                    (F::Tuple(v), _) => F::Struct(
                        v.iter().enumerate().map(|(i, x)| (format!("{i}"), x.clone())).collect(),
                    ),
                    (F::Struct(_), 0) => F::Unit,
                    (F::Struct(v), _) => F::Tuple(v.iter().map(|x| x.1.clone()).collect()),
                };
                (M::Enum(n.clone(), f2), "other variant kind")
            }
            _ => match f {
                F::Unit => (M::Enum(gen_name(r), F::Unit), "other variant name"),
                F::Tuple(v) => {
                    let (v, l) = mutate_many(r, v);
                    (M::Enum(n.clone(), F::Tuple(v)), l)
                }
                F::Struct(v) => {
                    let (v, l) = mutate_named(r, v);
                    (M::Enum(n.clone(), F::Struct(v)), l)
                }
            },
        },
        M::Map(v) => match r.below(3) {
            0 if !v.is_empty() => {
                let mut v = v.clone();
                let i = r.below(v.len());
                v.remove(i);
                (M::map(v), "missing entry")
            }
            1 if !v.is_empty() => {
                // change only a value
                let mut v = v.clone();
                let i = r.below(v.len());
                let (x, l) = mutate(r, &v[i].1);
                v[i].1 = x;
                (M::map(v), l)
            }
            _ => {
                let mut v = v.clone();
                let k = match v.first() {
                    Some((k, _)) if r.chance(2, 3) => mutate(r, k).0,
                    _ => gen_m(r, 1),
                };
                let x = match v.first() {
                    Some((_, x)) if r.chance(2, 3) => x.clone(),
                    _ => gen_m(r, 1),
                };
                if v.iter().all(|e| e.0.as_key() != k.as_key()) {
                    v.push((k, x));
                }
                (M::map(v), "extra entry")
            }
        },
        M::Via(..) | M::Array(_) | M::Opaque(..) => (gen_m(r, 1), "replaced"),
    }
}

pub const INT_KINDS: [SK; 11] = [
    SK::Usize, SK::U8, SK::U16, SK::U32, SK::U64, SK::U128, SK::I8, SK::I16, SK::I32, SK::I64,
    SK::I128,
];

/// An index as a key, of a random integer kind able to hold it.
pub fn index_key(r: &mut Rng, i: usize) -> M {
    for _ in 0..10 {
        let k = *r.pick(&INT_KINDS);
        if let Some(s) = Sc::index_of_kind(k, i) {
            return M::S(s);
        }
    }
    M::S(Sc::Usize(i))
}

/// A path that exists in `m`. With `variants` every enum on the way is spelled out (needed for
/// type paths), otherwise at random.
pub fn gen_path(r: &mut Rng, m: &M, variants: bool, max: usize) -> Vec<PK> {
    let mut out = vec![];
    let mut m = m;
    loop {
        if out.len() >= max || r.chance(1, 6) {
            return out;
        }
        if let M::Enum(n, _) = m {
            let mut k = if variants { 1 } else { r.below(2) };
            if r.chance(1, 10) {
                k += 1;
            }
            for _ in 0..k {
                out.push(PK::Variant(n.clone()));
            }
        }
        match m {
            M::S(_) | M::Via(..) | M::Opaque(..) | M::Enum(_, F::Unit) => return out,
            M::Struct(v) | M::Enum(_, F::Struct(v)) => {
                if v.is_empty() {
                    return out;
                }
                let (n, x) = r.pick(v);
                out.push(PK::Name(n.clone()));
                m = x;
            }
            M::TupleStruct(v) | M::Tuple(v) | M::Enum(_, F::Tuple(v)) => {
                if v.is_empty() {
                    return out;
                }
                let i = r.below(v.len());
                out.push(PK::Num(i));
                m = &v[i];
            }
            M::List(v) | M::Array(v) => {
                if v.is_empty() {
                    return out;
                }
                let i = r.below(v.len());
                out.push(PK::Get(index_key(r, i)));
                m = &v[i];
            }
            M::Map(v) => {
                if v.is_empty() {
                    return out;
                }
                let (k, x) = r.pick(v);
                out.push(PK::Get(k.erased()));
                m = x;
            }
        }
    }
}

pub fn gen_key(r: &mut Rng) -> PK {
    match r.below(6) {
        0 => PK::Name(gen_name(r)),
        1 => PK::Num(if r.chance(1, 8) { usize::MAX } else { r.below(4) }),
        2 => {
            let i = r.below(4);
            PK::Get(index_key(r, i))
        }
        3 => PK::Get(gen_m(r, 1)),
        4 => {
            // indices that must not be taken for a small index
            let small = r.below(3) as u128;
            let bad = match r.below(8) {
                0 => Sc::U64(u64::MAX),
                1 => Sc::U128((1u128 << 64) + small),
                2 => Sc::I8(-1 - small as i8),
                3 => Sc::I64(i64::MIN + small as i64),
                4 => Sc::I128(-((1i128 << 64) - small as i128)),
                5 => Sc::I128((1i128 << 64) + small as i128),
                6 => Sc::I32(-1 - small as i32),
                _ => Sc::U128((1u128 << 127) + small),
            };
            PK::Get(M::S(bad))
        }
        _ => PK::Variant(gen_name(r)),
    }
}

/// A path that probably does not exist: a valid path with one key broken, removed, added or swapped
/// for another style.
pub fn break_path(r: &mut Rng, path: &[PK]) -> Vec<PK> {
    let mut p = path.to_vec();
    match r.below(5) {
        0 => {
            let at = r.below(p.len() + 1);
            p.insert(at, gen_key(r));
        }
        1 if !p.is_empty() => {
            let at = r.below(p.len());
            p.remove(at);
        }
        2 if !p.is_empty() => {
            let at = r.below(p.len());
            p[at] = match &p[at] {
                PK::Name(n) => match r.below(3) {
                    0 => PK::Variant(n.clone()),
                    1 => PK::Get(M::str(n)),
                    _ => PK::Name(format!("{n}_")),
                },
                PK::Num(i) => match r.below(4) {
                    0 => PK::Get(M::S(Sc::Usize(*i))),
                    1 => PK::Name(i.to_string()),
                    2 => PK::Name(format!("field_{i}")),
                    _ => PK::Num(i + 1),
                },
                PK::Get(M::S(s)) => match (s.as_index(), r.below(4)) {
                    (Some(i), 0) => PK::Num(i),
                    (Some(i), 1) => PK::Get(M::S(Sc::U128((1u128 << 64) + i as u128))),
                    (Some(i), 2) => PK::Get(M::S(Sc::I64(-(i as i64 & 0xffff) - 1))),
                    (Some(i), _) => PK::Get(index_key(r, (i & 0xffff) + 1)),
                    _ => PK::Get(gen_m(r, 1)),
                },
                PK::Get(_) => PK::Get(gen_m(r, 1)),
                PK::Variant(n) => match r.below(2) {
                    0 => PK::Name(n.clone()),
                    _ => PK::Variant(gen_name(r)),
                },
            };
        }
        3 => p.push(gen_key(r)),
        _ => {
            if p.is_empty() {
                p.push(gen_key(r));
            } else {
                let at = r.below(p.len());
                p[at] = gen_key(r);
            }
        }
    }
    p
}
