//! Command line: mmv PROPERTY --seed N --tier T --out FILE [--crumb FILE] [--only LABEL:CASE]

use std::time::{Duration, Instant};

use crate::ctx::*;

pub fn main(reg: Registry) -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let prop = match args.first() {
        Some(p) => p.clone(),
        None => {
            eprintln!("usage: mmv PROPERTY --seed N --tier quick|thorough --out FILE [--crumb FILE] [--only LABEL:CASE]");
            return 2;
        }
    };
    if prop == "known-default-recursion" {
        return crate::mon_type::known_default_recursion();
    }
    if prop == "c14-child" {
        let n = |k: &str| get(k).and_then(|s| s.parse::<u64>().ok());
        return crate::mon_conc::child(&reg, n("--seed").unwrap_or(1), n("--threads").unwrap_or(4) as usize);
    }
    let thorough = get("--tier").as_deref() == Some("thorough");
    let cap: u64 = get("--cap").and_then(|x| x.parse().ok()).unwrap_or(if thorough { 1800 } else { 240 });
    let cfg = Cfg {
        prop: prop.clone(),
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough,
        only: get("--only").and_then(|s| {
            let (l, n) = s.rsplit_once(':')?;
            Some((l.to_owned(), n.parse().ok()?))
        }),
        start: Instant::now(),
        cap: Duration::from_secs(cap),
        threads: get("--threads").and_then(|x| x.parse().ok()).unwrap_or(8),
    };
    install(get("--crumb").as_deref(), 60, 200);
    if prop == "trace" {
        let (o, lines) = crate::mon_feat::trace(&cfg, &reg);
        if let Some(p) = get("--lines") {
            if let Err(e) = std::fs::write(&p, lines.join("\n")) {
                eprintln!("cannot write {p}: {e}");
                return 2;
            }
        }
        return report(&cfg, &reg, o, get("--out"));
    }
    let o = match run(&cfg, &reg) {
        Some(o) => o,
        None => {
            eprintln!("unknown property {prop}");
            return 2;
        }
    };
    report(&cfg, &reg, o, get("--out"))
}

fn report(cfg: &Cfg, reg: &Registry, o: Obs, out: Option<String>) -> i32 {
    let json = serde_json::json!({
        "property": cfg.prop,
        "seed": cfg.seed,
        "types": reg.len(),
        "cases": o.cases,
        "distinct": o.distinct.len(),
        "events": o.events,
        "samples": o.samples,
        "violations": o.violations,
        "harness_errors": o.harness_errors,
        "cut_short": o.cut_short,
        "wall_s": cfg.start.elapsed().as_secs_f64(),
    });
    let text = serde_json::to_string_pretty(&json).unwrap_or_default();
    match out {
        Some(p) => {
            if let Err(e) = std::fs::write(&p, &text) {
                eprintln!("cannot write {p}: {e}");
                return 2;
            }
        }
        None => println!("{text}"),
    }
    for v in o.violations.iter().take(5) {
        eprintln!("violation in {}:{}: {}", v.label, v.case, v.message);
    }
    for e in o.harness_errors.iter().take(5) {
        eprintln!("harness error: {e}");
    }
    if !o.violations.is_empty() {
        1
    } else if !o.harness_errors.is_empty() {
        2
    } else {
        0
    }
}

fn run(cfg: &Cfg, reg: &Registry) -> Option<Obs> {
    Some(match &*cfg.prop {
        "C01" => crate::mon_conv::c01(cfg, reg),
        "C02" => crate::mon_conv::c02(cfg, reg),
        "C03" => crate::mon_conv::c03(cfg, reg),
        "C08" => crate::mon_conv::c08(cfg, reg),
        "C09" => crate::mon_conv::c09(cfg, reg),
        "C04" => crate::mon_access::c04(cfg, reg),
        "C05" => crate::mon_access::c05(cfg, reg),
        "C12" => crate::mon_access::c12(cfg, reg),
        "C16" => crate::mon_access::c16(cfg, reg),
        "C18" => crate::mon_access::c18(cfg, reg),
        "C06" => crate::mon_type::c06(cfg, reg),
        "C07" => crate::mon_type::c07(cfg, reg),
        "C13" => crate::mon_type::c13(cfg, reg),
        "C15" => crate::mon_type::c15(cfg, reg),
        "C10" => crate::mon_value::c10(cfg, reg),
        "C11" => crate::mon_value::c11(cfg, reg),
        "C23" => crate::mon_value::c23(cfg, reg),
        "C19" => crate::mon_text::c19(cfg, reg),
        "C20" => crate::mon_text::c20(cfg, reg),
        "C21" => crate::mon_text::c21(cfg, reg),
        "C14" => crate::mon_conc::c14(cfg, reg),
        "C17" => crate::mon_misc::c17(cfg, reg),
        "C22" | "C24" => battery(cfg, reg),
        _ => return None,
    })
}

/// Every monitor of typed values: whatever the declaration looks like (C22) and whatever features are selected
/// (C24, the other monitors too).
fn battery(cfg: &Cfg, reg: &Registry) -> Obs {
    type Mon = fn(&Cfg, &Registry) -> Obs;
    let typed: [(&'static str, &'static str, Mon); 13] = [
        ("C01 ", "cases of restoring values", crate::mon_conv::c01),
        ("C02 ", "cases of copying", crate::mon_conv::c02),
        ("C03 ", "cases of converting", crate::mon_conv::c03),
        ("C04 ", "cases of field access", crate::mon_access::c04),
        ("C05 ", "cases of paths", crate::mon_access::c05),
        ("C06 ", "cases of descriptions", crate::mon_type::c06),
        ("C07 ", "cases of type paths", crate::mon_type::c07),
        ("C08 ", "cases of patching", crate::mon_conv::c08),
        ("C09 ", "cases of comparing", crate::mon_conv::c09),
        ("C13 ", "cases of defaults", crate::mon_type::c13),
        ("C16 ", "cases of visiting", crate::mon_access::c16),
        ("C18 ", "cases of views", crate::mon_access::c18),
        ("C19 ", "cases of printing", crate::mon_text::c19),
    ];
    let rest: [(&'static str, &'static str, Mon); 8] = [
        ("C10 ", "cases of ordering", crate::mon_value::c10),
        ("C11 ", "cases of writing and reading", crate::mon_value::c11),
        ("C12 ", "cases of collections", crate::mon_access::c12),
        ("C15 ", "cases of recursive types", crate::mon_type::c15),
        ("C17 ", "cases of mismatched operations", crate::mon_misc::c17),
        ("C20 ", "cases of building paths", crate::mon_text::c20),
        ("C21 ", "cases of printing types", crate::mon_text::c21),
        ("C23 ", "cases of building values", crate::mon_value::c23),
    ];
    let rest = if cfg.prop == "C24" { &rest[..] } else { &[] };
    let mut obs = Obs::default();
    for (name, what, f) in typed.iter().chain(rest).copied() {
        let mut cfg = cfg.clone();
        if let Some((l, n)) = cfg.only.clone() {
            match l.strip_prefix(name) {
                Some(l) => cfg.only = Some((l.to_owned(), n)),
                None => continue,
            }
        }
        set_crumb_prefix(name);
        let mut o = f(&cfg, reg);
        for v in &mut o.violations {
            v.label = format!("{name}{}", v.label);
        }
        obs.evn(what, o.cases);
        obs.merge(o);
        if !obs.violations.is_empty() {
            break;
        }
    }
    obs
}
