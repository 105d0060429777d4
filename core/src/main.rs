#![allow(dead_code)]
mod c_linear;
mod c_e2e;
mod c_mem;
mod c_newton;
mod c_norm;
mod erased;
mod fl;
mod matgen;
mod report;
mod rng;

use report::{finish, run_cases, Cfg};
use std::time::Instant;

fn main() {
    let mut args = std::env::args().skip(1);
    let mut cfg = Cfg {
        prop: String::new(),
        tier: "quick".into(),
        seed: 1,
        evidence: None,
        replay_dir: "/verif/evidence/replay".into(),
        only_case: None,
    };
    let mut scale = 1.0f64;
    let mut cases: Option<u64> = None;
    let mut extra: Vec<(String, u64)> = vec![];
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap_or_default();
        match a.as_str() {
            "--tier" => cfg.tier = v(),
            "--seed" => cfg.seed = v().parse().unwrap_or(1),
            "--evidence" => cfg.evidence = Some(v()),
            "--replay-dir" => cfg.replay_dir = v(),
            "--cases" => cases = v().parse().ok(),
            "--extra" => {
                if let Some((k, n)) = v().rsplit_once('=').map(|(k, n)| (k.to_string(), n.to_string())) {
                    extra.push((k, n.parse().unwrap_or(0)));
                }
            }
            "--case" => cfg.only_case = v().parse().ok(),
            "--scale" => scale = v().parse().unwrap_or(1.0),
            p => cfg.prop = p.to_string(),
        }
    }
    // panics of the code under test are caught and judged; keep stderr quiet
    if cfg.only_case.is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let start = Instant::now();
    let k = |quick: u64, thorough: u64| ((if cfg.thorough() { thorough } else { quick }) as f64 * scale) as u64;
    let code = match cfg.prop.as_str() {
        "C01" => {
            let r = run_cases(&cfg, k(2_400_000, 12_000_000), |c, r| c_linear::c01(&cfg, c, r));
            finish(&cfg, r, start, "random matrices of 16 families and exact dyadic systems, n from 1 to 100, f32 and f64, random right-hand sides; non-trivial: residual (or exact solution) compared; distinct by matrix and right-hand side",
                &["residuals checked", "exact systems solved", "f32", "f64", "n=1", "n=2", "n=64"], &["double-double arithmetic on IEEE f64 hardware"])
        }
        "C02" => {
            let r = run_cases(&cfg, k(2_400_000, 12_000_000), |c, r| c_linear::c02(&cfg, c, r));
            finish(&cfg, r, start, "as C01; non-trivial: factorization multiplied out and matched to the rows of the input; distinct by matrix",
                &["factorizations validated", "exact factorizations validated", "rows moved by pivoting", "n=1", "n=64"], &[])
        }
        "C03" => {
            let r = run_cases(&cfg, k(3_000_000, 12_000_000), |c, r| c_linear::c03(&cfg, c, r));
            finish(&cfg, r, start, "exactly representable eliminations with known verdict (dyadic LU products, permuted triangular), and general matrices with pivots far above rounding noise; distinct by matrix",
                &["nonsingular accepted", "singular rejected", "at column 1", "at last column", "at an inner column", "n=1"], &[])
        }
        "C04" => {
            let r = run_cases(&cfg, k(500_000, 3_000_000), |c, r| c_linear::c04(&cfg, c, r));
            finish(&cfg, r, start, "random histories of setups, failing setups, clones and solves on up to three objects, each result compared bitwise with a fresh solver; distinct by history and matrices",
                &["solves compared with a fresh solver", "failed setups in histories", "clones", "setups with a matrix like an earlier one", "repeated right-hand sides"], &[])
        }
        "C05" => {
            let n = cases.unwrap_or(k(400_000, 6_000_000));
            let mut r = run_cases(&cfg, n, |c, r| c_mem::c05(&cfg, c, r));
            for (k, v) in &extra {
                r.add(k, *v);
            }
            let need: &[&str] = if cfg!(miri) { &["linear layouts compared", "newton layouts compared"] } else { &["linear layouts compared", "newton layouts compared", "norms on hostile values", "solves after a failed setup", "solves before setup", "setup rejected"] };
            finish(&cfg, r, start, "hostile values (NaN, infinities, subnormal, huge, zeros), owned and strided layouts with canaries, solves before setup and after failed setups; run natively with debug assertions, under AddressSanitizer and under Miri; distinct by generated case",
                need, &["the Miri part covers n <= 4 and its own case subset", "dimension 0 is outside the property"])
        }
        "C06" => {
            let r = run_cases(&cfg, k(800_000, 4_000_000), |c, r| c_norm::c06(&cfg, c, r));
            finish(&cfg, r, start, "random vectors of length 1 to 2500 (20000 thorough), sparse, dominating, zero, non-finite and wide-range products, five layouts; double-double reference and norm axioms; distinct by vectors",
                &["axiom sets checked", "NaN products", "infinite products", "all products zero", "layout static", "layout strided view"], &["products whose squares overflow or underflow are outside the property"])
        }
        "C13" => {
            let r = run_cases(&cfg, k(900_000, 6_000_000), |c, r| c_e2e::c13(&cfg, c, r));
            finish(&cfg, r, start, "affine and quadratic systems with known root and proven chord contraction, n 1 to 12, right and wrong initial Jacobians, singular Jacobians, permuted and scaled presentations; distinct by matrix and initial guess",
                &["roots found", "affine systems solved exactly by the first correction", "singular jacobians reported", "wrong stale jacobian refreshed", "systems needing more than two iterations", "presentations compared"], &[])
        }
        p @ ("C07" | "C08" | "C09" | "C10" | "C11" | "C12") => {
            let p: &'static str = ["C07", "C08", "C09", "C10", "C11", "C12"].into_iter().find(|q| *q == p).unwrap();
            let mut r = if cfg.only_case.map_or(true, |c| c >> 40 == 0) {
                run_cases(&cfg, k(1_200_000, 8_000_000), |c, r| c_newton::random_case(&cfg, p, c, r))
            } else {
                report::Report::default()
            };
            if cfg.only_case.map_or(true, |c| c >> 40 != 0) {
                // exhaustive: every script of callback outcomes up to a depth, budget 0..3, both values of call_lsetup per solve
                let jobs = report::Cfg { only_case: None, prop: cfg.prop.clone(), tier: cfg.tier.clone(), seed: cfg.seed, evidence: None, replay_dir: String::new() };
                let depth = if cfg.thorough() { 12 } else { 10 };
                let e = run_cases(&jobs, 16, |c, r| c_newton::enumerate(&cfg, p, depth, (c / 4) as usize, c % 4, r));
                r.merge(e);
            }
            let need: &[&str] = match p {
                "C07" => &["accepted", "accepted after more than one iteration", "accepted after a refresh"],
                "C08" => &["accepted", "jacobian refreshes (retry with jbad)", "callback events checked"],
                "C09" => &["jacobian refreshes (retry with jbad)", "recoverable failure returned, jacobian current", "refresh setups completed"],
                "C10" => &["budget exhausted with current jacobian", "unbounded budgets", "residual failed at the initial guess"],
                "C11" => &["hard errors returned", "setup failed", "residual failed at the initial guess"],
                _ => &["jacobian refreshes (retry with jbad)", "hard errors returned", "accepted", "clones"],
            };
            finish(&cfg, r, start, "histories of 1 to 6 solves on one Newton object with a scripted problem: random outcomes and exhaustively enumerated outcome scripts; an online acceptor checks every callback and return; distinct by sequence of callback outcomes and budget", need, &[])
        }
        p => {
            eprintln!("unknown property {p}");
            2
        }
    };
    std::process::exit(code);
}
