//! C01 C02 C03 C08 C09: conversions, copies, patches and comparison.

use mirror_mirror::key_path::GetPath;
use mirror_mirror::{FromReflect, Reflect, Value};

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::observe::*;
use crate::oracle::{self, key_path, show_path, Verdict};
use crate::rng::Rng;
use crate::zoo::SK_DEFAULT;

fn check_value(val: &Value, m: &M, what: &str) -> Res {
    let got = read_value(val);
    let want = m.erased();
    ensure!(got == want, "{what}: {}", diff(&want, &got));
    Ok(())
}

pub fn c01(cfg: &Cfg, reg: &Registry) -> Obs {
    each_type(cfg, reg, cfg.n(120, 1500), |o, r, ty| {
        let (v, m) = gen_value(r, ty);
        o.note(|| format!("type {} value {}", ty.name, short(&m)));
        o.seen(&m);
        let val = v.r().to_value();
        o.ev("values erased");
        check_value(&val, &m, "to_value")?;
        let again = val.to_value();
        check_value(&again, &m, "to_value of the dynamic value")?;
        ensure!(again == val, "the dynamic value and its own dynamic value differ");
        match Value::from_reflect(v.r()) {
            Some(x) => check_value(&x, &m, "Value::from_reflect")?,
            None => return Err("Value::from_reflect gave nothing".into()),
        }
        // seen through the views it is the same data too
        let seen = read(&val)?;
        ensure!(seen == m.erased(), "views of the dynamic value: {}", diff(&m.erased(), &seen));
        let back = match (ty.ops.conv)(&val) {
            Some(b) => b,
            None => return Err("converting the dynamic value back gave nothing".into()),
        };
        o.ev("values restored");
        let bm = back.model();
        ensure!(bm == m, "round trip: {}", diff(&m, &bm));
        let sk = back.skips();
        ensure!(sk.iter().all(|x| *x == SK_DEFAULT), "excluded fields came back as {sk:?}, not as their default");
        if !sk.is_empty() {
            o.ev("excluded fields restored to default");
        }
        ensure!(v.model() == m, "erasing changed the value");
        // parts erase the same way
        for _ in 0..2 {
            let p = gen_path(r, &m, false, 5);
            if let Ok(Some((_, part))) = oracle::nav(Some(ty), &m, &p) {
                if let Some(x) = v.r().at(&key_path(&p)) {
                    check_value(&x.to_value(), part, &format!("to_value of {}", show_path(&p)))?;
                    o.ev("parts erased");
                }
            }
        }
        o.sample(|| format!("{}: {} -> Value -> equal", ty.name, short(&m)));
        Ok(())
    })
}

/// Patches `x` with some other value of the same type and reports whether it should have changed.
fn disturb(r: &mut Rng, ty: &'static Ty, x: &mut dyn Reflect, m: &M) -> Option<M> {
    let (w, wm) = gen_value(r, ty);
    let want = oracle::patch(Some(ty), m, &wm);
    x.patch(w.r());
    want
}

pub fn c02(cfg: &Cfg, reg: &Registry) -> Obs {
    each_type(cfg, reg, cfg.n(80, 1200), |o, r, ty| {
        let (mut v, m) = gen_value(r, ty);
        o.note(|| format!("type {} value {}", ty.name, short(&m)));
        o.seen(&m);
        let is_any = matches!(ty.k, K::Any);
        let kind = r.below(5);
        let mut copies: Vec<(&'static str, Box<dyn Reflect>)> = vec![];
        copies.push(("clone_reflect", v.r().clone_reflect()));
        copies.push(("to_owned", v.r().to_owned()));
        match (ty.ops.conv)(v.r()) {
            Some(c) => {
                let cm = c.model();
                ensure!(cm == m, "from_reflect of its own type: {}", diff(&m, &cm));
                o.ev("own-type conversions");
                copies.push(("from_reflect", c.into_reflect()));
            }
            None => return Err("from_reflect of its own type gave nothing".into()),
        }
        let second = copies[0].1.clone_reflect();
        copies.push(("clone_reflect twice", second));
        {
            let owned = v.r().clone_reflect().reflect_owned();
            let c = owned.clone();
            for (what, x) in [("owned view", &owned), ("clone of the owned view", &c)] {
                let got = read(x.as_reflect())?;
                ensure!(got == m.shown(), "{what}: {}", diff(&m.shown(), &got));
                // number-like wrappers give up their type when they become an owned scalar
                if !matches!(ty.k, K::Via(..)) {
                    ensure!(x.as_reflect().as_any().type_id() == v.r().as_any().type_id(), "{what} has another concrete type");
                }
                o.ev("owned views compared");
            }
        }
        for (what, c) in &copies {
            let got = read(&**c)?;
            ensure!(got == m.shown(), "{what}: {}", diff(&m.shown(), &got));
            ensure!(c.as_any().type_id() == v.r().as_any().type_id(), "{what} has another concrete type");
            ensure!(v.r().type_name() != ty.name || c.type_name() == ty.name, "{what} has type name {} not {}", c.type_name(), v.r().type_name());
            if !is_any {
                match (ty.native)(c.as_any()) {
                    Some(n) => ensure!(n == m, "{what}, natively: {}", diff(&m, &n)),
                    None => return Err(format!("{what} is not a {}", ty.name)),
                }
            }
            o.ev("copies compared");
        }
        // frames: change one, the others stay
        let i = r.below(copies.len());
        if kind < 3 {
            let want = disturb(r, ty, &mut *copies[i].1, &m);
            o.ev("copies changed");
            ensure!(v.model() == m, "changing a copy ({}) changed the original: {}", copies[i].0, diff(&m, &v.model()));
            for (j, (what, c)) in copies.iter().enumerate() {
                let got = read(&**c)?;
                if j != i {
                    ensure!(got == m.shown(), "changing one copy changed another ({what})");
                } else if let Some(want) = want.as_ref() {
                    ensure!(got == want.shown(), "the copy did not take the change: {}", diff(&want.shown(), &got));
                }
            }
        } else {
            let want = disturb(r, ty, v.r_mut(), &m);
            o.ev("originals changed");
            for (what, c) in &copies {
                let got = read(&**c)?;
                ensure!(got == m.shown(), "changing the original changed a copy ({what}): {}", diff(&m.shown(), &got));
            }
            if let Some(want) = want {
                ensure!(v.model() == want, "the original did not take the change: {}", diff(&want, &v.model()));
            }
        }
        // writes to one part only
        let now = v.model();
        drop(copies);
        ensure!(v.model() == now, "dropping the copies changed the original");
        let c = v.r().clone_reflect();
        let before = v.model().shown();
        drop(v);
        let got = read(&*c)?;
        ensure!(got == before, "dropping the original changed the copy: {}", diff(&before, &got));
        o.sample(|| format!("{}: 4 copies of {} independent", ty.name, short(&m)));
        Ok(())
    })
}

/// A source of data for `ty`: typed or dynamic, fitting or not. Returns the model and how it was made.
pub fn gen_source(r: &mut Rng, reg: &Registry, ty: &'static Ty) -> (Box<dyn Reflect>, M, &'static str, bool) {
    match r.below(10) {
        0 => {
            let (v, m) = gen_value(r, ty);
            (v.into_reflect(), m, "same type", false)
        }
        1 => {
            let other = (r.pick(reg).1)();
            let (v, m) = gen_value(r, other);
            (v.into_reflect(), m, "other type", false)
        }
        2 => {
            let m = gen_m(r, 3);
            (Box::new(m.dynamic()), m, "random dynamic value", true)
        }
        3 => {
            let m = gen_value(r, ty).1.erased();
            (Box::new(m.dynamic()), m, "dynamic value of the type", true)
        }
        4 => {
            // dynamic value of another type
            let other = (r.pick(reg).1)();
            let m = gen_value(r, other).1.erased();
            (Box::new(m.dynamic()), m, "dynamic value of another type", true)
        }
        _ => {
            let mut m = gen_value(r, ty).1.erased();
            let mut label = "";
            for _ in 0..1 + r.below(2) {
                let (x, l) = mutate(r, &m);
                m = x;
                label = l;
            }
            (Box::new(m.dynamic()), m, label, true)
        }
    }
}

pub fn c03(cfg: &Cfg, reg: &Registry) -> Obs {
    let all = reg.clone();
    each_type(cfg, reg, cfg.n(250, 4000), move |o, r, ty| {
        let (src, sm, how, dynamic) = gen_source(r, &all, ty);
        o.note(|| format!("to {} from {how}: {}", ty.name, short(&sm)));
        let want = oracle::convert(ty, &sm);
        let got = (ty.ops.conv)(&*src);
        o.seen(&(ty.name, &sm));
        match (&want, &got) {
            (Conv::Unspec, _) => o.ev("outcome not documented"),
            (Conv::Fail, None) => {
                o.ev("rejected as required");
                o.sample(|| format!("{} rejects {} ({how})", ty.name, short(&sm)));
            }
            (Conv::Fail, Some(g)) => return Err(format!("data that does not fit was accepted as {}", short(&g.model()))),
            (Conv::Ok(m), None) => return Err(format!("data that fits was rejected, expected {}", short(m))),
            (Conv::Ok(m), Some(g)) => {
                let gm = g.model();
                ensure!(gm == *m, "{}", diff(m, &gm));
                o.ev("accepted as required");
                let sk = g.skips();
                if dynamic && !sk.is_empty() {
                    ensure!(sk.iter().all(|x| *x == SK_DEFAULT), "excluded fields are {sk:?}, not their default");
                    o.ev("excluded fields defaulted");
                }
            }
        }
        let after = read(&*src)?;
        ensure!(after == sm.shown(), "conversion changed its source");
        Ok(())
    })
}

pub fn c08(cfg: &Cfg, reg: &Registry) -> Obs {
    let all = reg.clone();
    each_type(cfg, reg, cfg.n(200, 3500), move |o, r, ty| {
        let (mut v, m) = gen_value(r, ty);
        // something related to the target itself, so that keys and indices meet
        let (src, sm, how): (Box<dyn Reflect>, M, &str) = if r.chance(1, 3) {
            let (mut x, l) = mutate(r, &m.erased());
            let mut how = l;
            for _ in 0..r.below(4) {
                let (y, l) = mutate(r, &x);
                x = y;
                how = l;
            }
            (Box::new(x.dynamic()), x, how)
        } else {
            let (s, sm, how, _) = gen_source(r, &all, ty);
            (s, sm, how)
        };
        o.note(|| format!("patch of {} {} with {how}: {}", ty.name, short(&m), short(&sm)));
        o.seen(&(ty.name, &m, &sm));
        if r.chance(1, 3) {
            // dynamic target
            let dm = m.erased();
            let mut t = dm.dynamic();
            let want = oracle::patch(None, &dm, &sm);
            t.patch(&*src);
            let got = read_value(&t);
            match want {
                None => o.ev("outcome not documented"),
                Some(want) => {
                    ensure!(got == want, "dynamic target: {}", diff(&want, &got));
                    o.ev(if want == dm { "dynamic target left unchanged" } else { "dynamic target changed as required" });
                    t.patch(&*src);
                    let got = read_value(&t);
                    ensure!(got == want, "repeating the patch changed the value again: {}", diff(&want, &got));
                }
            }
            return Ok(());
        }
        v.set_skips(7_000_000_000_000);
        let sk = v.skips();
        let want = oracle::patch(Some(ty), &m, &sm);
        v.r_mut().patch(&*src);
        let got = v.model();
        let seen = read(v.r())?;
        ensure!(seen == got.shown(), "the views of the patched value disagree with the value");
        if !matches!(ty.k, K::Enum(_)) {
            ensure!(v.skips() == sk, "excluded fields changed from {sk:?} to {:?}", v.skips());
            if !sk.is_empty() {
                o.ev("excluded fields kept");
            }
        }
        match want {
            None => o.ev("outcome not documented"),
            Some(want) => {
                ensure!(got == want, "{}", diff(&want, &got));
                o.ev(if want == m { "left unchanged as required" } else { "changed as required" });
                v.r_mut().patch(&*src);
                let got = v.model();
                ensure!(got == want, "repeating the patch changed the value again: {}", diff(&want, &got));
                o.sample(|| format!("{}: {} patched with {} = {}", ty.name, short(&m), short(&sm), short(&want)));
            }
        }
        ensure!(read(&*src)? == sm.shown(), "patching changed the patch");
        Ok(())
    })
}

pub fn verdict(o: &mut Obs, a: &dyn Reflect, am: &M, b: &dyn Reflect, bm: &M, what: &str) -> Res {
    let want = oracle::equal(am, bm);
    let ab = mirror_mirror::reflect_eq(a, b);
    let ba = mirror_mirror::reflect_eq(b, a);
    let op = a == b;
    ensure!(op == (ab == Some(true)), "{what}: the operator says {op}, reflect_eq {ab:?}");
    match want {
        Verdict::Equal | Verdict::Unequal => {
            let w = want == Verdict::Equal;
            ensure!(ab == Some(w), "{what}: expected {w}, got {ab:?} comparing {} with {}", short(am), short(bm));
            ensure!(ba == Some(w), "{what}: expected {w}, got {ba:?} comparing {} with {} the other way round", short(am), short(bm));
            o.ev(if w { "equal as required" } else { "unequal as required" });
        }
        Verdict::Opaque => {
            ensure!(ab != Some(true) && ba != Some(true), "{what}: values with opaque parts called equal: {} and {}", short(am), short(bm));
            o.ev("opaque, no equality claimed");
        }
        Verdict::Unspec => o.ev("verdict not documented"),
    }
    Ok(())
}

pub fn shuffle_fields(r: &mut Rng, m: &M) -> M {
    let many = |r: &mut Rng, v: &Vec<M>| v.iter().map(|x| shuffle_fields(r, x)).collect::<Vec<_>>();
    let named = |r: &mut Rng, v: &Vec<(String, M)>| {
        let mut v: Vec<_> = v.iter().map(|(n, x)| (n.clone(), shuffle_fields(r, x))).collect();
        for i in (1..v.len()).rev() {
            let j = r.below(i + 1);
            v.swap(i, j);
        }
        v
    };
    match m {
        M::S(_) | M::Via(..) | M::Opaque(..) | M::Enum(_, F::Unit) => m.clone(),
        M::TupleStruct(v) => M::TupleStruct(many(r, v)),
        M::Tuple(v) => M::Tuple(many(r, v)),
        M::List(v) => M::List(many(r, v)),
        M::Array(v) => M::Array(many(r, v)),
        M::Enum(n, F::Tuple(v)) => M::Enum(n.clone(), F::Tuple(many(r, v))),
        M::Struct(v) => M::Struct(named(r, v)),
        M::Enum(n, F::Struct(v)) => M::Enum(n.clone(), F::Struct(named(r, v))),
        // keys stay as they are: in another order a key is another key
        M::Map(v) => M::map(v.iter().map(|(k, x)| (k.clone(), shuffle_fields(r, x))).collect()),
    }
}

pub fn c09(cfg: &Cfg, reg: &Registry) -> Obs {
    let all = reg.clone();
    each_type(cfg, reg, cfg.n(120, 2000), move |o, r, ty| {
        let (v, m) = gen_value(r, ty);
        o.note(|| format!("type {} value {}", ty.name, short(&m)));
        o.seen(&m);
        verdict(o, v.r(), &m, v.r(), &m, "itself")?;
        let c = v.r().clone_reflect();
        verdict(o, v.r(), &m, &*c, &m, "its copy")?;
        let em = m.erased();
        let d = em.dynamic();
        verdict(o, v.r(), &m, &d, &em, "its dynamic value")?;
        verdict(o, v.r(), &m, &v.r().to_value(), &em, "its to_value")?;
        let (mm, l) = mutate(r, &em);
        o.ev("one-place differences");
        verdict(o, v.r(), &m, &mm.dynamic(), &mm, l)?;
        verdict(o, &d, &em, &mm.dynamic(), &mm, l)?;
        let sh = shuffle_fields(r, &em);
        verdict(o, v.r(), &m, &sh.dynamic(), &sh, "fields in another order")?;
        let (w, wm) = gen_value(r, ty);
        verdict(o, v.r(), &m, w.r(), &wm, "another value of the type")?;
        // typed value differing in one place, if the difference still fits
        if let Some(x) = (ty.ops.conv)(&mm.dynamic()) {
            let xm = x.model();
            verdict(o, v.r(), &m, x.r(), &xm, "a typed value differing in one place")?;
            o.ev("typed one-place differences");
        }
        let other = (r.pick(&all).1)();
        let (x, xm) = gen_value(r, other);
        verdict(o, v.r(), &m, x.r(), &xm, "a value of another type")?;
        // boxed
        let b: Box<Box<dyn Reflect>> = Box::new(x.r().clone_reflect());
        verdict(o, &**b, &xm, x.r(), &xm, "boxed")?;
        Ok(())
    })
}
