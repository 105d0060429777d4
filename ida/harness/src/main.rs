#![allow(dead_code)]
mod meta;
mod mon;
mod model;
mod prob;
#[path = "../../../core/src/report.rs"]
mod report;
#[path = "../../../core/src/rng.rs"]
mod rng;
mod run;
mod sp;
mod taps;

use report::{finish, run_cases, Cfg};
use std::time::Instant;

fn main() {
    let mut args = std::env::args().skip(1);
    let mut cfg = Cfg { prop: String::new(), tier: "quick".into(), seed: 1, evidence: None, replay_dir: "/verif/evidence/replay".into(), only_case: None };
    let mut scale = 1.0f64;
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap_or_default();
        match a.as_str() {
            "--tier" => cfg.tier = v(),
            "--seed" => cfg.seed = v().parse().unwrap_or(1),
            "--evidence" => cfg.evidence = Some(v()),
            "--replay-dir" => cfg.replay_dir = v(),
            "--case" => cfg.only_case = v().parse().ok(),
            "--scale" => scale = v().parse().unwrap_or(1.0),
            p => cfg.prop = p.to_string(),
        }
    }
    if cfg.only_case.is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let start = Instant::now();
    let spec = match mon::spec(&cfg.prop) {
        Some(s) => mon::outside(&cfg.prop, s),
        None => {
            eprintln!("unknown property {}", cfg.prop);
            std::process::exit(2)
        }
    };
    let n = ((if cfg.thorough() { spec.thorough } else { spec.quick }) as f64 * scale) as u64;
    let mut r = run_cases(&cfg, n, |c, r| (spec.f)(&cfg, c, r));
    mon::overall(&cfg.prop, &mut r);
    std::process::exit(finish(&cfg, r, start, spec.rule, spec.required, spec.assumptions));
}
