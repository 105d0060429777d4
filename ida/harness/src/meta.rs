//! Monitors that compare two integrations which have to agree bit for bit.
use crate::mon::*;
use crate::prob::*;
use crate::report::{hash_f64s, Cfg, Report};
use crate::rng::Rng;
use crate::run::*;
use crate::taps::{Ev, Plan};

const EPS: f64 = f64::EPSILON;
use std::rc::Rc;

/// How values of the second integration follow from those of the first.
#[derive(Clone, Debug)]
struct Map {
    t: f64,
    /// per component; all 1 if empty
    y: Vec<f64>,
    g: f64,
    /// sizes
    n: usize,
    m: usize,
}
impl Map {
    const SAME: Map = Map { t: 1.0, y: Vec::new(), g: 1.0, n: 0, m: 0 };
}
fn same(a: f64, b: f64) -> bool {
    a == b || a.is_nan() && b.is_nan()
}
/// the kind of an outcome, without the numbers in it
fn kind(o: &Out) -> String {
    match o {
        Out::Err(e) => e.chars().take_while(|c| !c.is_ascii_digit() && *c != '-').collect(),
        Out::Panic(_) => "panic".into(),
        o => format!("{:?}", o),
    }
}
fn compare_pub(m: &Map, p: &Pub, q: &Pub) -> Option<String> {
    for (name, u, v) in [("internal time", p.tn, q.tn), ("last step", p.hused, q.hused), ("next step", p.hh, q.hh), ("first step", p.h0u, q.h0u)] {
        if !same(u * m.t, v) {
            return Some(format!("{} {:e} became {:e}, expected {:e}", name, u, v, u * m.t));
        }
    }
    for (name, u, v) in [
        ("last order", p.kused, q.kused),
        ("next order", p.kk, q.kk),
        ("steps", p.nst, q.nst),
        ("residual evaluations", p.nre, q.nre),
        ("setups", p.nsetups, q.nsetups),
        ("error test failures", p.netf, q.netf),
        ("Jacobians", p.nje, q.nje),
        ("iterations", p.nni, q.nni),
        ("convergence failures", p.ncfn, q.ncfn),
        ("root evaluations", p.nge, q.nge),
    ] {
        if u != v {
            return Some(format!("{}: {} became {}", name, u, v));
        }
    }
    if let Some(t) = compare_vec("y", &p.y, &q.y, 1.0, m) {
        return Some(t);
    }
    if let Some(t) = compare_vec("y'", &p.yp, &q.yp, 1.0 / m.t, m) {
        return Some(t);
    }
    for (i, (u, v)) in p.roots.iter().zip(&q.roots).enumerate() {
        // a function that stays zero after the last return has no direction, and is reported as 1
        if !same(u * m.g.signum(), *v) && !(*u == 1.0 && *v == 1.0) {
            return Some(format!("root information {} {} became {}", i, u, v));
        }
    }
    None
}
fn compare_vec(name: &str, u: &[f64], v: &[f64], f: f64, m: &Map) -> Option<String> {
    if m.n == 0 && u.len() != v.len() {
        return Some(format!("{} values of {} became {}", u.len(), name, v.len()));
    }
    for i in 0..v.len() {
        let w = u[i % u.len()] * f * m.y.get(i).copied().unwrap_or(1.0);
        // a value may underflow in one of the units
        let gone = |x: f64| x.abs() < 1e-250;
        if !same(w, v[i]) && !(gone(w) && gone(v[i])) {
            return Some(format!("{}[{}] = {:e} became {:e}, expected {:e}", name, i, u[i % u.len()], v[i], w));
        }
    }
    None
}

/// One request to an integration, in the units of the first one.
#[derive(Clone, Debug)]
enum Op {
    Solve { tout: f64, one: bool },
    At(f64),
    Dky(f64, usize),
    Stop(f64),
}
#[derive(Clone, Debug)]
enum Seen {
    Call(Box<(Out, f64, Pub)>),
    At(Result<(Vec<f64>, Vec<f64>), String>),
    Dky(Result<Vec<f64>, String>),
    Nothing,
}
fn apply(sim: &mut Sim, op: &Op, t: f64) -> Seen {
    match op {
        Op::Solve { tout, one } => {
            let c = sim.solve(tout * t, *one);
            Seen::Call(Box::new((c.out, c.tret, c.after)))
        }
        Op::At(u) => Seen::At(sim.at(u * t)),
        Op::Dky(u, k) => Seen::Dky(sim.dky(u * t, *k)),
        Op::Stop(u) => {
            #[cfg(feature = "hooks")]
            sim.ida.vh_set_tstop(Some(u * t));
            let _ = u;
            Seen::Nothing
        }
    }
}
fn compare(m: &Map, op: &Op, a: &Seen, b: &Seen, r: &mut Report) -> Option<String> {
    match (a, b) {
        (Seen::Call(a), Seen::Call(b)) => {
            if kind(&a.0) != kind(&b.0) {
                return Some(format!("{:?} became {:?}", a.0, b.0));
            }
            r.count("calls compared");
            if a.0 == Out::Root {
                r.count("root returns compared");
            }
            if let Out::Err(_) = a.0 {
                r.count("failing calls compared");
            }
            if !same(a.1 * m.t, b.1) {
                return Some(format!("returned time {:e} became {:e}, expected {:e}", a.1, b.1, a.1 * m.t));
            }
            compare_pub(m, &a.2, &b.2)
        }
        (Seen::At(Ok(a)), Seen::At(Ok(b))) => {
            r.count("dense output compared");
            compare_vec("y", &a.0, &b.0, 1.0, m).or_else(|| compare_vec("y'", &a.1, &b.1, 1.0 / m.t, m))
        }
        (Seen::Dky(Ok(a)), Seen::Dky(Ok(b))) => {
            r.count("dense output compared");
            let k = if let Op::Dky(_, k) = op { *k as i32 } else { 0 };
            compare_vec("derivative", a, b, 1.0 / m.t.powi(k), m)
        }
        (Seen::At(Err(_)), Seen::At(Err(_))) | (Seen::Dky(Err(_)), Seen::Dky(Err(_))) | (Seen::Nothing, Seen::Nothing) => None,
        (a, b) => Some(format!("{:?} became {:?}", a, b)),
    }
}
/// The next request, from what the first integration has reached.
fn next_op(g: &mut Rng, sim: &Sim, s: &Scen, tlast: f64) -> Op {
    let (tn, h, hu, nst) = (sim.ida.get_current_time(), sim.ida.get_current_setp(), sim.ida.get_last_step(), sim.ida.get_num_steps());
    if nst == 0 {
        if g.chance(0.05) {
            return Op::At(0.0);
        }
        return Op::Solve { tout: s.tend * 10f64.powf(-3.0 * g.unit()), one: g.chance(0.5) };
    }
    match g.below(20) {
        0 => Op::At(tn - hu * (1.1 * g.unit() - 0.05)),
        1 => Op::Dky(tn - hu * (1.1 * g.unit() - 0.05), g.below(7)),
        2 => Op::Stop(tn + h * (3.0 * g.unit() - if g.chance(0.1) { 1.0 } else { 0.0 })),
        3..=9 => Op::Solve { tout: s.tend, one: true },
        10 => Op::Solve { tout: tlast, one: g.chance(0.5) },
        11 => Op::Solve { tout: tn - 2.0 * hu * g.unit(), one: false },
        _ => Op::Solve { tout: tn + h * 4.0 * g.unit(), one: false },
    }
}
fn pow2(g: &mut Rng, k: i64, neg: bool) -> f64 {
    2f64.powi(g.range(-k, k) as i32) * if neg && g.chance(0.4) { -1.0 } else { 1.0 }
}

// ------------------------------------------------------------------------------------------ I16

pub fn i16(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I16", case);
    let copies = g.chance(0.15);
    let mut s = scen(&mut g);
    if copies {
        for _ in 0..50 {
            if s.spec.n == 1 {
                break;
            }
            s = scen(&mut g);
        }
        if s.spec.n != 1 {
            return;
        }
    }
    if g.chance(0.6) {
        let f = s.tend;
        add_roots(&mut g, &mut s, f);
    }
    let mut plan = if g.chance(0.4) { rand_plan(&mut g) } else { Plan::default() };
    if g.chance(0.05) {
        plan.nls_fail_from = Some(g.below(60));
    }
    r.evaluations += 1;
    let n = s.spec.n;
    let (map, spec, tol) = if copies {
        let k = 2;
        r.count("uncoupled copies");
        let roots = s.spec.roots.clone();
        let tol = Tol { rtol: s.tol.rtol, atol: if s.tol.scalar { s.tol.atol.clone() } else { s.tol.atol.repeat(k) }, scalar: s.tol.scalar };
        (Map { t: 1.0, y: vec![], g: 1.0, n: k, m: 1 }, Spec { n: n * k, kind: Kind::Copies { inner: Box::new((*s.spec).clone()), k }, roots }, tol)
    } else {
        let t = if g.chance(0.2) { 1.0 } else { pow2(&mut g, 30, true) };
        let neg = plan.err_fail.is_empty();
        let y0 = if g.chance(0.2) { 1.0 } else { pow2(&mut g, 40, neg) };
        // the same unit for all components, or one for each
        let each = n > 1 && g.chance(0.5);
        let y: Vec<f64> = (0..n).map(|_| if each { pow2(&mut g, 40, neg) } else { y0 }).collect();
        // the order and the signs of the equations
        let ru = pow2(&mut g, 40, true);
        let mut eq: Vec<usize> = (0..n).collect();
        let mixed = n > 1 && g.chance(0.5);
        if mixed {
            for i in (1..n).rev() {
                eq.swap(i, g.below(i + 1));
            }
        }
        let ru: Vec<f64> = (0..n).map(|_| if mixed && g.chance(0.5) { -ru } else { ru }).collect();
        let gu = pow2(&mut g, 40, true);
        for (b, what) in [
            (t < 0.0, "mirrored in time"),
            (y.iter().any(|y| *y < 0.0), "mirrored in sign"),
            (t.abs() != 1.0, "other units of time"),
            (y[0].abs() != 1.0, "other units of the solution"),
            (each, "a unit for each component"),
            (mixed, "equations in another order"),
        ] {
            if b {
                r.count(what);
            }
        }
        let roots = s.spec.roots.clone();
        let tol = if each {
            Tol { rtol: s.tol.rtol, atol: (0..n).map(|i| s.tol.at(i) * y[i].abs()).collect(), scalar: false }
        } else {
            Tol { rtol: s.tol.rtol, atol: s.tol.atol.iter().map(|a| a * y0.abs()).collect(), scalar: s.tol.scalar }
        };
        (Map { t, y: y.clone(), g: gu, n: 0, m: 0 }, Spec { n, kind: Kind::Units { inner: Box::new((*s.spec).clone()), t, y, r: ru, eq, g: gu }, roots }, tol)
    };
    let mut a = Sim::new(s.spec.clone(), s.tol.clone(), plan.clone());
    let mut b = Sim::new(Rc::new(spec), tol, plan);
    let mut tlast = 0.0;
    let mut sig = vec![];
    let mut errs = 0;
    for k in 0..(40 + g.below(160)) {
        let op = next_op(&mut g, &a, &s, tlast);
        let x = apply(&mut a, &op, 1.0);
        let z = apply(&mut b, &op, map.t);
        if let Some(t) = compare(&map, &op, &x, &z, r) {
            return fail(r, case, &s, format!("request {} ({:?}) in other units ({:?}): {}", k, op, map, t));
        }
        if let Seen::Call(c) = x {
            match c.0 {
                Out::Panic(_) => break,
                Out::Err(_) => {
                    errs += 1;
                    if errs > 3 {
                        break;
                    }
                }
                _ => tlast = c.1,
            }
            sig.push(c.2.tn);
        }
    }
    r.distinct.insert(hash_f64s(sig.into_iter()));
}

// ------------------------------------------------------------------------------------------ I17

fn setup(cfg: &Cfg, case: u64, tag: &str) -> (Scen, Plan, Rng) {
    let mut g = Rng::new(cfg.seed, tag, case);
    let mut s = scen(&mut g);
    if g.chance(0.4) {
        let f = s.tend;
        add_roots(&mut g, &mut s, f);
    }
    let mut plan = if g.chance(0.4) { rand_plan(&mut g) } else { Plan::default() };
    if g.chance(0.05) {
        plan.nls_fail_from = Some(g.below(60));
    }
    (s, plan, g)
}
/// Run alone; the requests made and what was seen.
fn alone(s: &Scen, plan: &Plan, g: &mut Rng, len: usize) -> Vec<(Op, Seen)> {
    let mut a = Sim::new(s.spec.clone(), s.tol.clone(), plan.clone());
    let mut tlast = 0.0;
    let mut out = vec![];
    let mut errs = 0;
    for _ in 0..len {
        let op = next_op(g, &a, s, tlast);
        let x = apply(&mut a, &op, 1.0);
        let mut stop = false;
        if let Seen::Call(c) = &x {
            match c.0 {
                Out::Panic(_) => stop = true,
                Out::Err(_) => {
                    errs += 1;
                    stop = errs > 3;
                }
                _ => tlast = c.1,
            }
        }
        out.push((op, x));
        if stop {
            break;
        }
    }
    out
}
pub fn i17(cfg: &Cfg, case: u64, r: &mut Report) {
    let (s, plan, mut g) = setup(cfg, case, "I17");
    r.evaluations += 1;
    let len = 20 + g.below(80);
    let base = alone(&s, &plan, &mut g, len);
    let check = |what: &str, seen: &[Seen], r: &mut Report| -> Option<String> {
        for (k, ((op, x), z)) in base.iter().zip(seen).enumerate() {
            if let Some(t) = compare(&Map::SAME, op, x, z, r) {
                return Some(format!("request {} ({:?}) {}: {}", k, op, what, t));
            }
        }
        r.count(what);
        None
    };
    // with other integrations advanced in between
    {
        let mut others: Vec<(Sim, Scen)> = vec![];
        let mut failed = false;
        // one of the same problem, to other tolerances, begun and dropped before
        if g.chance(0.3) {
            let f = if g.chance(0.5) { 1.0 } else { 10f64.powf(4.0 * g.unit() - 2.0) };
            let mut o = Sim::new(s.spec.clone(), s.tol.scaled(f), plan.clone());
            if g.chance(0.3) {
                // a request that is not legal
                o.solve(0.0, true);
            }
            for _ in 0..g.below(4) {
                let op = next_op(&mut g, &o, &s, 0.0);
                apply(&mut o, &op, 1.0);
            }
            r.count("after another integration of the same problem");
        }
        let mut mine = Sim::new(s.spec.clone(), s.tol.clone(), plan.clone());
        let mut seen = vec![];
        for (op, _) in &base {
            if others.len() < 3 && g.chance(0.2) {
                let (o, mut p, _) = if g.chance(0.3) {
                    let mut o = setup(cfg, case, "I17").0;
                    o.tol = o.tol.scaled(if g.chance(0.5) { 1.0 } else { 10f64.powf(4.0 * g.unit() - 2.0) });
                    (o, Plan::default(), 0)
                } else {
                    let (o, p, _) = setup(cfg, case * 64 + others.len() as u64, "I17o");
                    (o, p, 0)
                };
                if g.chance(0.3) {
                    p.nls_fail_from = Some(g.below(10));
                }
                others.push((Sim::new(o.spec.clone(), o.tol.clone(), p), o));
            }
            for _ in 0..g.below(3) {
                if !others.is_empty() {
                    let k = g.below(others.len());
                    let (o, os) = &mut others[k];
                    let op = next_op(&mut g, o, os, 0.0);
                    if let Seen::Call(c) = apply(o, &op, 1.0) {
                        failed |= matches!(c.0, Out::Err(_));
                    }
                    if g.chance(0.05) {
                        others.remove(k);
                    }
                }
            }
            seen.push(apply(&mut mine, op, 1.0));
        }
        if let Some(t) = check("interleaved with another integration", &seen, r) {
            return fail(r, case, &s, t);
        }
        if failed {
            r.count("after an integration that failed");
        }
    }
    // on another thread, which starts with nothing
    if g.chance(0.3) {
        let (cfg2, ops) = (Cfg { prop: cfg.prop.clone(), tier: cfg.tier.clone(), seed: cfg.seed, evidence: None, replay_dir: String::new(), only_case: None }, base.iter().map(|b| b.0.clone()).collect::<Vec<_>>());
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let (s, plan, _) = setup(&cfg2, case, "I17");
            let mut a = Sim::new(s.spec.clone(), s.tol.clone(), plan);
            ops.iter().map(|op| apply(&mut a, op, 1.0)).collect::<Vec<_>>()
        });
        match h.map(|h| h.join()) {
            Ok(Ok(seen)) => {
                if let Some(t) = check("on another thread", &seen, r) {
                    return fail(r, case, &s, t);
                }
            }
            _ => r.count("threads that could not be run"),
        }
    }
    let mut sig = vec![];
    for (_, x) in &base {
        if let Seen::Call(c) = x {
            sig.push(c.2.tn);
        }
    }
    r.distinct.insert(hash_f64s(sig.into_iter()));
}

// ------------------------------------------------------------------------------------------ I18

/// Failing linear solvers: what a failed setup or solve leaves behind is never used.
pub fn i18(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I18", case);
    let s = if g.chance(0.7) { scen_manu(&mut g, false) } else { scen(&mut g) };
    r.evaluations += 1;
    let n = s.spec.n;
    let mut plan = Plan { lsolve_leaves: g.below(5), ..Plan::default() };
    let span = 30 + g.below(400);
    for _ in 0..g.below(12) {
        let at = if g.chance(0.2) { g.below(4) } else { g.below(span) };
        let run = 1 + if g.chance(0.3) { g.below(9) } else { 0 };
        for k in at..at + run {
            if g.chance(0.7) {
                plan.lsolve_fail.push(k);
            } else {
                plan.ls_fail.push(k);
            }
        }
    }
    if g.chance(0.15) {
        plan.lsolve_fail_from = Some(g.below(span));
    }
    r.count(["x left as it was", "x left NaN", "x left large", "x left small", "x left half solved"][plan.lsolve_leaves]);
    let lin = matches!(&s.spec.kind, Kind::Manu { e, .. } if e.iter().all(|v| *v == 0.0));
    let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), plan);
    let mut sig = vec![];
    for k in 0..(20 + g.below(150)) {
        let from = sim.plan.lsolve_calls;
        let c = sim.solve(s.tend, true);
        macro_rules! bad { ($($a:tt)*) => {{ fail(r, case, &s, format!("step {} from t={:e} (linear solves from {} on, {} failing: {:?}, from {:?} on, leaving kind {}): {}", k, c.before.tn, from, sim.plan.lsolve_fail.len(), sim.plan.lsolve_fail, sim.plan.lsolve_fail_from, sim.plan.lsolve_leaves, format!($($a)*))); return; }} }
        if let Out::Panic(p) = &c.out {
            bad!("panic: {}", p);
        }
        let at = attempts(&c.evs);
        let mut failed = 0;
        for (q, a) in at.iter().enumerate() {
            let (mut solve_ok, mut setup_ok) = (None, true);
            let mut faults = 0;
            for e in &c.evs[a.lo..=a.hi.min(c.evs.len() - 1)] {
                match e {
                    Ev::LsSetup { ok, .. } => {
                        setup_ok = *ok;
                        solve_ok = None;
                        faults += !*ok as usize;
                    }
                    Ev::LsSolve { ok, .. } => {
                        if !setup_ok {
                            bad!("attempt {}: a linear solve after a failed setup", q + 1);
                        }
                        solve_ok = Some(*ok);
                        faults += !*ok as usize;
                    }
                    Ev::CTest { res: Ok(true), .. } if solve_ok == Some(false) => bad!("attempt {}: the convergence test accepts after a failed linear solve", q + 1),
                    Ev::NlsEnd { err: None, .. } if solve_ok == Some(false) || !setup_ok => bad!("attempt {}: the nonlinear solve ends in success after a failed linear {}", q + 1, if setup_ok { "solve" } else { "setup" }),
                    _ => {}
                }
            }
            if faults > 0 {
                r.add("failed linear setups and solves", faults as u64);
                r.count(if a.err.is_some() { "attempts that failed with them" } else { "attempts that recovered with a fresh setup" });
            }
            if a.err.is_some() {
                failed += 1;
                if q + 1 < at.len() {
                    let (h1, h2) = (a.t - c.before.tn, at[q + 1].t - c.before.tn);
                    if (h2 - 0.25 * h1).abs() > 1e-9 * h1.abs() + 8.0 * EPS * a.t.abs() {
                        bad!("attempt {} with step {:e} after a failed one with {:e}: expected a quarter", q + 2, h2, h1);
                    }
                    r.count("retries with a quarter of the step");
                }
            }
        }
        if c.after.ncfn - c.before.ncfn != failed {
            bad!("{} convergence failures counted, {} attempts failed", c.after.ncfn - c.before.ncfn, failed);
        }
        sig.push(c.after.tn);
        if let Out::Err(e) = &c.out {
            if failed < 10 && !e.contains("ERR_FAIL") && !e.contains("TooMuch") {
                bad!("gave up after {} failed attempts: {}", failed, e);
            }
            if failed >= 10 {
                if !e.contains("ConvergenceFail") {
                    bad!("{} attempts failed to converge, reported as {}", failed, e);
                }
                r.count("given up after ten failures");
            }
            if failed > 10 {
                bad!("{} attempts", failed);
            }
            if c.tret != c.before.tn {
                bad!("the reported time is {:e}", c.tret);
            }
            if k > 0 && sim.plan.lsolve_fail_from.is_some() {
                // the solver works again: so does the integration
                sim.plan.lsolve_fail_from = None;
                continue;
            }
            break;
        }
        // the accepted step satisfies the system
        if let (true, Some(a)) = (lin, at.last()) {
            let mut f = vec![0.0; n];
            s.spec.res(c.after.tn, &c.after.y, &c.after.yp, &mut f);
            let kk = c.after.kused;
            let cj = (1..=kk).map(|i| 1.0 / i as f64).sum::<f64>() / c.after.hused;
            let mut m = vec![vec![0.0; n]; n];
            s.spec.jac(c.after.tn, cj, &c.after.y, &c.after.yp, &mut m);
            if let Some(dx) = gauss(&m, &f) {
                let e = wrms(&dx, &a.w);
                let floor = 64.0 * EPS * c.after.y.iter().zip(&a.w).map(|(y, w)| (y * w).abs()).fold(0.0, f64::max);
                if !(e <= 60.0 + floor) {
                    bad!("the accepted solution needs a correction of {:e} in the error-weight norm", e);
                }
                r.count("accepted steps checked");
            }
        }
        if (c.after.tn - 10.0 * s.tend) * s.dir > 0.0 {
            break;
        }
    }
    r.distinct.insert(hash_f64s(sig.into_iter()));
}

// ------------------------------------------------------------------------------------------ I19

/// Function values that are not finite: no iterate computed from them is accepted.
pub fn i19(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I19", case);
    let s = if g.chance(0.7) { scen_manu(&mut g, false) } else { scen(&mut g) };
    r.evaluations += 1;
    let n = s.spec.n;
    let mut plan = Plan::default();
    let kind = g.below(4);
    let span = 20 + g.below(600);
    if kind != 2 {
        for _ in 0..1 + g.below(10) {
            let at = if g.chance(0.2) { g.below(4) } else { g.below(span) };
            let run = 1 + if g.chance(0.3) { g.below(30) } else { 0 };
            let c = g.below(n + 1);
            let v = *g.pick(&[f64::NAN, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            (at..at + run).for_each(|k| plan.res_bad.push((k, c, v)));
        }
    }
    if kind >= 2 {
        for _ in 0..1 + g.below(5) {
            let at = if g.chance(0.3) { g.below(3) } else { g.below(30) };
            plan.jac_bad.push((at, g.below(n + 1), g.below(n + 1)));
        }
    }
    if g.chance(0.15) {
        plan.res_edge = Some((s.tend * g.unit() * 0.5, s.dir));
    }
    let lin = matches!(&s.spec.kind, Kind::Manu { e, .. } if e.iter().all(|v| *v == 0.0));
    let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), plan);
    let mut sig = vec![];
    let mut jac_ok = true;
    let mut errors = 0;
    for k in 0..(20 + g.below(150)) {
        let (from, jfrom) = (sim.plan.res_calls, sim.plan.jac_calls);
        let one = g.chance(0.9);
        let to = if one { s.tend } else { sim.ida.get_current_time() + s.tend * 0.02 * (0.1 + g.unit()) };
        let c = sim.solve(to, one);
        macro_rules! bad { ($($a:tt)*) => {{ fail(r, case, &s, format!("call {} from t={:e} (residual evaluations from {} on, not finite: {:?}, beyond {:?}; Jacobian evaluations from {} on, NaN: {:?}): {}", k, c.before.tn, from, sim.plan.res_bad, sim.plan.res_edge, jfrom, sim.plan.jac_bad, format!($($a)*))); return; }} }
        if let Out::Panic(p) = &c.out {
            bad!("panic: {}", p);
        }
        let at = attempts(&c.evs);
        let mut failed = 0;
        for (q, a) in at.iter().enumerate() {
            let (mut res_ok, mut faults) = (true, 0);
            for e in &c.evs[a.lo..=a.hi.min(c.evs.len() - 1)] {
                match e {
                    Ev::Res { r: f, .. } => {
                        res_ok = f.iter().all(|x| x.is_finite());
                        faults += !res_ok as usize;
                    }
                    Ev::LsSetup { a, .. } => {
                        jac_ok = a.iter().flatten().all(|x| x.is_finite());
                        faults += !jac_ok as usize;
                    }
                    Ev::CTest { del, res, .. } => {
                        if del.iter().any(|x| !x.is_finite()) {
                            r.count("convergence tests of corrections that are not finite");
                        }
                        if *res == Ok(true) && !(res_ok && jac_ok) {
                            bad!("attempt {} at t={:e}: the convergence test accepts {:?} though the {} was not finite", q + 1, a.t, del, if res_ok { "Jacobian" } else { "residual" });
                        }
                    }
                    _ => {}
                }
            }
            if faults > 0 {
                r.add("values that are not finite", faults as u64);
                r.count(if a.err.is_some() { "attempts that failed with them" } else { "attempts that recovered with a fresh setup" });
            }
            if a.err.is_some() {
                failed += 1;
                let e = a.err.as_ref().unwrap();
                if !e.contains("ConvergenceRecover") && !e.contains("LU") && !e.contains("ingular") {
                    bad!("attempt {} ended with {}", q + 1, e);
                }
                if one && q + 1 < at.len() {
                    let (h1, h2) = (a.t - c.before.tn, at[q + 1].t - c.before.tn);
                    if (h2 - 0.25 * h1).abs() > 1e-9 * h1.abs() + 8.0 * EPS * a.t.abs() {
                        bad!("attempt {} with step {:e} after a failed one with {:e}: expected a quarter", q + 2, h2, h1);
                    }
                    r.count("retries with a quarter of the step");
                }
            }
        }
        if c.after.ncfn - c.before.ncfn != failed {
            bad!("{} convergence failures counted, {} attempts failed", c.after.ncfn - c.before.ncfn, failed);
        }
        let st = &c.after;
        if let Some(v) = st.y.iter().chain(&st.yp).chain([&st.tn, &st.hused, &st.hh, &c.tret]).find(|x| !x.is_finite()) {
            if k > 0 || !matches!(c.out, Out::Err(_)) {
                bad!("{} returned: t={:e} tn={:e} y={:?} y'={:?} last step {:e} next step {:e} ({:?})", v, c.tret, st.tn, st.y, st.yp, st.hused, st.hh, c.out);
            }
        }
        if let Some((t, d)) = sim.plan.res_edge {
            if (st.tn - t) * d > 0.0 {
                bad!("an internal time of {:e}, where the residual is NaN", st.tn);
            }
        }
        sig.push(st.tn);
        if let Out::Err(e) = &c.out {
            r.count("calls ended by an error");
            if c.tret != st.tn {
                bad!("the reported time is {:e}, the internal time {:e}", c.tret, st.tn);
            }
            let last = at.iter().rev().take_while(|a| a.err.is_some()).count();
            if last >= 10 {
                if !e.contains("ConvergenceFail") {
                    bad!("{} attempts failed to converge, reported as {}", last, e);
                }
                r.count("given up after ten failures");
            }
            if last > 10 {
                bad!("{} attempts", last);
            }
            if e.contains("ConvergenceFail") && failed < 10 && one {
                bad!("gave up after {} failed attempts: {}", failed, e);
            }
            errors += 1;
            // a step size that only shrinks underflows in the end
            if errors < 6 && k > 0 && st.nst > 0 && (sim.plan.res_edge.is_some() || last >= 10) {
                // the functions are in order again: so is the integration
                r.count("continued after giving up");
                sim.plan.res_edge = None;
                sim.plan.res_bad.clear();
                sim.plan.jac_bad.clear();
                continue;
            }
            break;
        }
        if let (true, true, Some(a)) = (lin, one, at.last()) {
            let mut f = vec![0.0; n];
            s.spec.res(st.tn, &st.y, &st.yp, &mut f);
            let cj = (1..=st.kused).map(|i| 1.0 / i as f64).sum::<f64>() / st.hused;
            let mut m = vec![vec![0.0; n]; n];
            s.spec.jac(st.tn, cj, &st.y, &st.yp, &mut m);
            if let Some(dx) = gauss(&m, &f) {
                let e = wrms(&dx, &a.w);
                let floor = 64.0 * EPS * st.y.iter().zip(&a.w).map(|(y, w)| (y * w).abs()).fold(0.0, f64::max);
                if !(e <= 60.0 + floor) {
                    bad!("the accepted solution needs a correction of {:e} in the error-weight norm", e);
                }
                r.count("accepted steps checked");
            }
        }
        if (st.tn - 10.0 * s.tend) * s.dir > 0.0 {
            break;
        }
    }
    r.distinct.insert(hash_f64s(sig.into_iter()));
}
