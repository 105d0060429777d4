//! The monitors, one per property.
#[cfg(feature = "hooks")]
use crate::model::{self, Bad, Env, Seen, St};
use crate::prob::*;
use crate::report::{hash_f64s, Cfg, Report};
use crate::rng::Rng;
use crate::run::*;
use crate::taps::{Ev, Plan};
use std::rc::Rc;

pub struct Mon {
    pub f: fn(&Cfg, u64, &mut Report),
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub required: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

const EPS: f64 = f64::EPSILON;

/// A problem with tolerances and an end time.
#[derive(Clone)]
pub struct Scen {
    pub spec: Rc<Spec>,
    pub tol: Tol,
    /// signed
    pub tend: f64,
    pub dir: f64,
}

pub fn gen_tol(r: &mut Rng, n: usize) -> Tol {
    let rtol = 10f64.powf(-2.0 - 6.0 * r.unit());
    let a = || 0.0;
    let _ = a;
    if r.chance(0.5) {
        Tol::ss(rtol, rtol * 10f64.powf(-3.0 * r.unit()))
    } else {
        Tol::sv(rtol, (0..n).map(|_| rtol * 10f64.powf(-3.0 * r.unit())).collect())
    }
}

fn gen_fam(r: &mut Rng, kink: bool) -> Fam {
    let dir = if r.chance(0.3) { -1.0 } else { 1.0 };
    let tend = 10f64.powf(3.0 * r.unit() - 1.0);
    let max_n = if r.chance(0.03) { 33 } else { *r.pick(&[1, 2, 3, 4, 6, 10]) };
    Fam { max_n, dae: r.chance(0.5), stiff: r.chance(0.5), nonlin: r.chance(0.5), kink, dir, tend, constant: false }
}

pub fn scen_manu(r: &mut Rng, kink: bool) -> Scen {
    let f = gen_fam(r, kink);
    let spec = manu(r, f);
    let tol = gen_tol(r, spec.n);
    Scen { tol, tend: f.dir * f.tend, dir: f.dir, spec: Rc::new(spec) }
}

/// Any problem.
pub fn scen(r: &mut Rng) -> Scen {
    match r.below(10) {
        0 => {
            let tol = Tol::sv(1e-4, vec![1e-8, 1e-14, 1e-6]);
            Scen { spec: Rc::new(Spec { n: 3, kind: Kind::Roberts, roots: vec![] }), tol, tend: 10f64.powf(6.0 * r.unit() - 1.0), dir: 1.0 }
        }
        1 => {
            let mu = 10f64.powf(2.0 * r.unit() - 0.5);
            Scen { spec: Rc::new(Spec { n: 2, kind: Kind::Vdp { mu }, roots: vec![] }), tol: gen_tol(r, 2), tend: 5.0 + 20.0 * r.unit(), dir: 1.0 }
        }
        2 => Scen { spec: Rc::new(Spec { n: 3, kind: Kind::Lorenz, roots: vec![] }), tol: gen_tol(r, 3), tend: 1.0 + 4.0 * r.unit(), dir: 1.0 },
        3 => {
            let mut f = gen_fam(r, false);
            f.constant = true;
            f.nonlin = false;
            let spec = manu(r, f);
            let tol = gen_tol(r, spec.n);
            Scen { tol, tend: f.dir * f.tend, dir: f.dir, spec: Rc::new(spec) }
        }
        4 | 5 | 6 => scen_manu(r, true),
        _ => scen_manu(r, false),
    }
}

pub fn desc(s: &Scen) -> String {
    format!("{:?}\n tol {:?} tend {:e}", s.spec, s.tol, s.tend)
}

/// Add root functions whose zeros in time are spread over the run.
/// Root functions. Sometimes some of them are zero exactly at the ends of internal steps of a run whose first request
/// is `first`; returns whether that is so.
pub fn add_roots(r: &mut Rng, s: &mut Scen, first: f64) -> bool {
    // ends of internal steps with the solution there
    let mut grid: Vec<(f64, Vec<f64>)> = vec![];
    if r.chance(0.4) {
        let mut p = Sim::new(s.spec.clone(), s.tol.clone(), Plan::default());
        for _ in 0..(3 + r.below(40)) {
            let c = p.solve(first, true);
            if !c.out.ok() {
                break;
            }
            let tn = c.after.tn;
            if let Ok((y, _)) = p.at(tn) {
                grid.push((tn, y));
            }
        }
    }
    let mut spec = (*s.spec).clone();
    let m = 1 + r.below(3);
    for _ in 0..m {
        let a = s.tend * r.unit();
        let sg = if r.chance(0.5) { 1.0 } else { -1.0 };
        if !grid.is_empty() && r.chance(0.7) {
            let (t, y) = &grid[r.below(grid.len())];
            spec.roots.push(if r.chance(0.7) {
                RootFn::Time { a: *t, s: sg }
            } else {
                let c = r.below(spec.n);
                RootFn::Y { c, v: y[c], s: sg }
            });
            continue;
        }
        spec.roots.push(match r.below(8) {
            0 | 1 => RootFn::Time { a, s: sg },
            2 => RootFn::Sin { w: 20.0 / s.tend.abs() * r.unit(), p: 6.0 * r.unit() },
            3 | 4 => {
                let c = r.below(spec.n);
                let v = match spec.exact(s.tend * r.unit()) {
                    Some((y, _)) => y[c],
                    None => r.sym(),
                };
                RootFn::Y { c, v, s: sg }
            }
            5 => RootFn::Yp { c: r.below(spec.n), v: 0.1 * r.sym(), s: sg },
            6 => RootFn::Late { a: (0.5 * a).abs(), b: a, s: sg },
            _ => RootFn::Pos,
        });
    }
    s.spec = Rc::new(spec);
    !grid.is_empty()
}

/// Largest error in units of the tolerance, taken for the largest magnitude each component had up to t: where a
/// component passes through zero, it still carries the error made when it was large.
fn werr(s: &Scen, t: f64, y: &[f64]) -> f64 {
    let (u, _) = s.spec.exact(t).unwrap();
    let m = umax(s, t);
    (0..u.len()).map(|i| (y[i] - u[i]).abs() * s.tol.weight(i, m[i])).fold(0.0, f64::max)
}

/// largest magnitudes of the exact solution up to t
fn umax(s: &Scen, t: f64) -> Vec<f64> {
    let mut m = vec![0.0f64; s.spec.n];
    for k in 0..=100 {
        let (v, _) = s.spec.exact(t * k as f64 / 100.0).unwrap();
        for (m, v) in m.iter_mut().zip(v) {
            *m = m.max(v.abs());
        }
    }
    m
}

pub fn fail(r: &mut Report, case: u64, s: &Scen, what: String) {
    r.violation(case, format!("{}\n{}", what, desc(s)));
}

// ------------------------------------------------------------------------------------------ I01

/// returns the largest weighted error over the outputs (weights of `wt`)
fn drive(s: &Scen, tol: &Tol, outs: &[f64], r: &mut Report) -> Result<(f64, usize), String> {
    let mut sim = Sim::new(s.spec.clone(), tol.clone(), Plan::default());
    let mut worst = 0.0f64;
    for &t in outs {
        let mut tries = 0;
        loop {
            let c = sim.solve(t, false);
            match c.out {
                Out::Success => {
                    if c.after.y.iter().chain(&c.after.yp).any(|v| !v.is_finite()) {
                        return Err(format!("non-finite solution at t={:e}", t));
                    }
                    worst = worst.max(werr(s, t, &c.after.y));
                    r.count("outputs compared with the exact solution");
                    break;
                }
                Out::Err(ref e) if e.contains("mxstep") && tries < 60 => tries += 1,
                ref o => return Err(format!("solve to t={:e} (end {:e}) returned {:?} at internal time {:e} after {} steps", t, s.tend, o, c.after.tn, c.after.nst)),
            }
        }
    }
    Ok((worst, sim.ida.get_num_steps()))
}

fn outs(r: &mut Rng, s: &Scen) -> Vec<f64> {
    let k = 1 + r.below(8);
    let mut f: Vec<f64> = (0..k).map(|_| if r.chance(0.3) { 10f64.powf(-4.0 * r.unit()) } else { r.unit() }).collect();
    f.push(1.0);
    f.sort_by(|a, b| a.partial_cmp(b).unwrap());
    f.dedup();
    f.into_iter().map(|f| f * s.tend).filter(|t| *t != 0.0).collect()
}

fn i01(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I01", case);
    let mut s = scen_manu(&mut g, false);
    {
        // Stay with problems the method can be held to: Newton's method converges from a prediction, and no component
        // is to be far more accurate than those it depends on (its error test would fail on their errors for ever).
        let mut q = (*s.spec).clone();
        if let Kind::Manu { e, .. } = &mut q.kind {
            e.iter_mut().for_each(|e| *e = e.min(2.0));
        }
        s.spec = Rc::new(q);
        let tolmin = (0..s.spec.n).map(|i| 1.0 / s.tol.weight(i, umax(&s, s.tend)[i])).fold((f64::INFINITY, 0.0f64), |a, t| (a.0.min(t), a.1.max(t)));
        if tolmin.1 > 30.0 * tolmin.0 {
            r.count("problems with too uneven tolerances left out");
            return;
        }
    }
    let o = outs(&mut g, &s);
    r.evaluations += 1;
    let (e, nst) = match drive(&s, &s.tol, &o, r) {
        Ok(x) => x,
        Err(e) if e.contains("mxstep") => {
            r.count("integrations that came to a standstill");
            return;
        }
        Err(e) => return fail(r, case, &s, e),
    };
    // many small steps add up
    let lim = 250.0 + nst as f64;
    if std::env::var("VERIF_CAL").is_ok() {
        println!("CAL {:e} {} {:e} {}", e, nst, s.tol.rtol, case);
    }
    if e > lim {
        return fail(r, case, &s, format!("error {:.3e} times the tolerance", e));
    }
    if e > 10.0 {
        r.count("errors above ten times the tolerance");
    }
    r.count("integrations");
    r.count(if s.dir > 0.0 { "forward integrations" } else { "backward integrations" });
    r.count(if s.tol.scalar { "scalar tolerances" } else { "per-component tolerances" });
    if s.spec.differential().iter().any(|d| !d) {
        r.count("DAEs");
    }
    if g.chance(0.3) {
        // tolerances a thousand times tighter
        let t2 = s.tol.scaled(1e-3);
        if t2.rtol < 1e-10 {
            return;
        }
        match drive(&s, &t2, &o, r) {
            Ok((e2, _)) => {
                if std::env::var("VERIF_CAL").is_ok() {
                    println!("CAL2 {:e} {:e} {}", e, e2, case);
                }
                r.count("tightened runs");
                if e2 > 0.6 * (e + 0.5) {
                    fail(r, case, &s, format!("error {:.3e} (in units of the loose tolerance) with tolerances a thousand times tighter, {:.3e} before", e2, e));
                }
            }
            // near the limit of accuracy a component can be held up by the errors of another
            Err(e) if e.contains("mxstep") => r.count("integrations that came to a standstill"),
            Err(e) => fail(r, case, &s, format!("tightened tolerances: {}", e)),
        }
    }
    r.distinct.insert(hash_f64s([e, nst as f64].into_iter()));
    r.sample(|| format!("n={} steps={} outputs={} error/tolerance={:.3}", s.spec.n, nst, o.len(), e));
}

// ------------------------------------------------------------------------------------------ I02

fn i02(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I02", case);
    let mut s = scen(&mut g);
    let mut aligned = false;
    if g.chance(0.5) {
        let f = s.tend;
        aligned = add_roots(&mut g, &mut s, f);
    }
    let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), Plan::default());
    r.evaluations += 1;
    let d = s.dir;
    let mut last_ret = 0.0f64;
    let mut t_req = 0.0f64;
    let mut errs = 0;
    let mut last_root: Option<f64> = None;
    let mut hist: Vec<f64> = vec![];
    for k in 0..60 {
        let one = if aligned { k == 0 || g.chance(0.7) } else { g.chance(0.4) };
        // requests never go backwards
        let base = if d * (last_ret - t_req) > 0.0 { last_ret } else { t_req };
        let tout = match g.below(6) {
            _ if k == 0 && aligned => s.tend,
            0 if k > 0 => base,
            1 if k > 0 => base + sim.ida.get_last_step() * g.unit(),
            2 if k > 0 => {
                let tn = sim.ida.get_current_time();
                if d * (tn - base) > 0.0 {
                    base + (tn - base) * g.unit()
                } else {
                    base + s.tend * 0.01
                }
            }
            3 if k > 0 => {
                let tn = sim.ida.get_current_time();
                if d * (tn - base) >= 0.0 {
                    tn
                } else {
                    base
                }
            }
            4 => base + s.tend * 0.3 * g.unit() * g.unit(),
            _ => base + s.tend * 10f64.powf(-4.0 * g.unit()),
        };
        if k == 0 && tout == 0.0 {
            continue;
        }
        if k > 0 && tout == 0.0 {
            continue;
        }
        let c = sim.solve(tout, one);
        if !one {
            t_req = tout;
        }
        let at = attempts(&c.evs);
        let steps = c.after.nst as i64 - c.before.nst as i64;
        let tag = format!("call {} ({} to {:e}, previous return {:e}, internal time {:e} -> {:e}, {} steps, {:?}, tret {:e})", k, if one { "one step" } else { "normal" }, tout, last_ret, c.before.tn, c.after.tn, steps, c.out, c.tret);
        if steps > 0 && !((c.after.tn - c.before.tn) * d > 0.0) {
            return fail(r, case, &s, format!("{}: internal time did not advance", tag));
        }
        if steps == 0 && c.after.tn != c.before.tn {
            return fail(r, case, &s, format!("{}: internal time changed without a step", tag));
        }
        match &c.out {
            Out::Panic(p) => return fail(r, case, &s, format!("{}: panic {}", tag, p)),
            Out::Err(e) => {
                errs += 1;
                // Newton may not converge within its iterations behind a skipped front of a nonlinear problem, nor where
                // a strong nonlinearity let a step be accepted on an outdated Jacobian
                let front = match &s.spec.kind {
                    Kind::Manu { e, u, .. } => e.iter().any(|e| *e > 2.0) || e.iter().any(|e| *e != 0.0) && u.iter().any(|u| u.k != 0.0),
                    _ => false,
                };
                let known = e.contains("mxstep") || e.contains("CloseRoots") || front && e.contains("ConvergenceFail");
                if !known {
                    let t: Vec<String> = attempts(&c.evs).iter().map(|a| format!("{:e} {:?}", a.t - c.before.tn, a.err)).collect();
                    return fail(r, case, &s, format!("{}: unexpected error; attempts {:#?}", tag, t));
                }
                r.count("error returns");
                if e.contains("CloseRoots") || errs > 3 {
                    break;
                }
                if c.tret != c.after.tn {
                    return fail(r, case, &s, format!("{}: step limit reported at {:e}", tag, c.tret));
                }
                last_ret = c.tret;
                continue;
            }
            Out::TStop | Out::Continue => return fail(r, case, &s, format!("{}: no stop time was set", tag)),
            Out::Success if !one => {
                if c.tret != tout {
                    return fail(r, case, &s, format!("{}: returned time is not the requested one", tag));
                }
                if (c.after.tn - tout) * d < 0.0 {
                    return fail(r, case, &s, format!("{}: internal time has not reached the requested time", tag));
                }
                if steps > 0 && (c.after.tn - c.after.hused - tout) * d >= 1e-9 * c.after.hused.abs() {
                    return fail(r, case, &s, format!("{}: stepped on although the requested time had been reached", tag));
                }
                if c.before.nst > 0 && (c.before.tn - tout) * d >= 0.0 && steps > 0 {
                    return fail(r, case, &s, format!("{}: a step was taken for a time already covered", tag));
                }
                r.count("normal returns");
                if steps == 0 {
                    r.count("normal returns without a step");
                }
            }
            Out::Success => {
                if c.tret != c.after.tn {
                    return fail(r, case, &s, format!("{}: one-step return away from the internal time", tag));
                }
                // without a step only if the internal time had not been reported yet
                let pending = (c.before.tn - last_ret) * d > 0.0;
                if steps != 1 && !(steps == 0 && pending && c.before.nst > 0) {
                    return fail(r, case, &s, format!("{}: a one-step call took {} steps", tag, steps));
                }
                r.count("one-step returns");
                if steps == 1 {
                    if let Some(a) = at.last() {
                        let n = s.spec.n;
                        for i in 0..n {
                            let want = a.ypred[i] + a.ee[i];
                            let sc = a.ypred[i].abs() + a.ee[i].abs();
                            if (c.after.y[i] - want).abs() > 1e-12 * sc + 1e-300 {
                                return fail(r, case, &s, format!("{}: y[{}] = {:e}, the step ended at {:e}", tag, i, c.after.y[i], want));
                            }
                        }
                    }
                }
            }
            Out::Root => {
                r.count("root returns");
                if c.tret == c.after.tn {
                    r.count("roots at the internal time");
                }
                let hi = if one || (c.after.tn - tout) * d < 0.0 { c.after.tn } else { tout };
                if (c.tret - last_ret) * d < 0.0 || (c.tret - hi) * d > 0.0 {
                    return fail(r, case, &s, format!("{}: root outside the interval up to {:e}", tag, hi));
                }
                // a request for the very time of the last root finds it again
                let prev_root_return = c.tret == last_ret && (one || tout != last_ret);
                // a component that becomes zero just after the root is a new one, reported at the same time
                let news = c.after.roots.iter().zip(&c.before.roots).any(|(a, b)| *a != 0.0 && *b == 0.0);
                if prev_root_return && last_root == Some(c.tret) && steps == 0 && !news {
                    let ev: Vec<String> = c.evs.iter().filter_map(|e| if let Ev::Root { t, g, .. } = e { Some(format!("{:.17e}: {:?}", t, g)) } else { None }).collect();
                    return fail(r, case, &s, format!("{}: the same root is returned again; root evaluations {:#?}", tag, ev));
                }
            }
        }
        last_root = if c.out == Out::Root { Some(c.tret) } else { None };
        hist.push(c.tret);
        if (c.tret - last_ret) * d < 0.0 {
            return fail(r, case, &s, format!("{}: returned time moved backwards", tag));
        }
        // y and y' are those of the returned time
        let (y, yp) = (c.after.y.clone(), c.after.yp.clone());
        if steps > 0 || c.tret != last_ret {
            match sim.at(c.tret) {
                Err(e) => return fail(r, case, &s, format!("{}: the solution cannot be queried at the returned time: {}", tag, e)),
                Ok((y2, yp2)) => {
                    // the one-step return leaves y' of the corrector, which is the derivative of the same polynomial
                    for i in 0..s.spec.n {
                        let sc = y2[i].abs() + 1e-3 * (yp2[i] * c.after.hused).abs();
                        let pn: f64 = yp2.iter().map(|x| x.abs()).fold(0.0, f64::max);
                        let yn: f64 = y2.iter().map(|x| x.abs()).fold(0.0, f64::max);
                        if (y[i] - y2[i]).abs() > 1e-9 * sc + 1e-13 * yn {
                            return fail(r, case, &s, format!("{}: y[{}] = {:e} returned, the solution there is {:e}", tag, i, y[i], y2[i]));
                        }
                        let one_end = one && steps == 1 && c.out == Out::Success;
                        if !one_end && (yp[i] - yp2[i]).abs() > 1e-9 * (yp2[i].abs() + pn * 1e-3) + 1e-11 * yn / c.after.hused.abs() {
                            return fail(r, case, &s, format!("{}: y'[{}] = {:e} returned, the derivative there is {:e}", tag, i, yp[i], yp2[i]));
                        }
                        let _ = yp;
                    }
                }
            }
            // the query must not disturb anything; restore y for the next comparison
        }
        last_ret = c.tret;
        if (last_ret - s.tend) * d > 0.0 {
            break;
        }
    }
    r.count(if d > 0.0 { "forward" } else { "backward" });
    r.distinct.insert(hash_f64s(hist.into_iter()));
}

// ------------------------------------------------------------------------------------------ I03

/// derivatives at x of the polynomial through (xs, ys)
fn poly_derivs(xs: &[f64], ys: &[f64], x: f64, kmax: usize) -> Vec<f64> {
    // Newton divided differences, then repeated synthetic expansion about x
    let m = xs.len();
    let mut c = ys.to_vec();
    for j in 1..m {
        for i in (j..m).rev() {
            c[i] = (c[i] - c[i - 1]) / (xs[i] - xs[i - j]);
        }
    }
    // Taylor coefficients about x of sum c_j prod_{i<j} (X - xs_i)
    let mut p = vec![0.0; m + 1];
    for j in (0..m).rev() {
        // p = p * (X - xs_j) + c_j, in powers of (X - x)
        let d = x - xs[j];
        for q in (1..=m).rev() {
            p[q] = p[q] * d + p[q - 1];
        }
        p[0] = p[0] * d + c[j];
    }
    let mut f = 1.0;
    (0..=kmax)
        .map(|k| {
            if k > 0 {
                f *= k as f64;
            }
            if k < p.len() {
                p[k] * f
            } else {
                0.0
            }
        })
        .collect()
}

fn i03(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I03", case);
    let s = scen(&mut g);
    let plan = if g.chance(0.3) { rand_plan(&mut g) } else { Plan::default() };
    let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), plan);
    r.evaluations += 1;
    let n = s.spec.n;
    let mut prev: Option<Vec<f64>> = Some(sim.y0.clone());
    let steps = 20 + g.below(120);
    let mut recent = vec![sim.y0.iter().map(|x| x.abs()).fold(1e-300, f64::max)];
    let mut sig = vec![];
    if g.chance(0.2) {
        // before the first step: the initial values
        match sim.at(0.0) {
            Ok((y, yp)) => {
                if (0..n).any(|i| (y[i] - sim.y0[i]).abs() > 1e-14 * sim.y0[i].abs() || !((yp[i] - sim.yp0[i]).abs() <= 1e-14 * sim.yp0[i].abs())) {
                    return fail(r, case, &s, format!("before the first step: y = {:?}, y' = {:?}, initially {:?} and {:?}", y, yp, sim.y0, sim.yp0));
                }
            }
            Err(e) => return fail(r, case, &s, format!("before the first step: {}", e)),
        }
        match sim.dky(0.0, 0) {
            Ok(y) if y == sim.y0 => {}
            o => return fail(r, case, &s, format!("before the first step: {:?}, initially {:?}", o, sim.y0)),
        }
        r.count("queries before the first step");
    }
    for k in 0..steps {
        let normal = g.chance(0.15) && k > 0;
        let tout = if normal { sim.ida.get_current_time() + (2.5 * g.unit()) * sim.ida.get_current_setp() } else { s.tend };
        let c = sim.solve(tout, !normal);
        match &c.out {
            Out::Panic(p) => return fail(r, case, &s, format!("step {}: panic {}", k, p)),
            Out::Err(_) => break,
            _ => {}
        }
        let at = attempts(&c.evs);
        let nst = c.after.nst as i64 - c.before.nst as i64;
        if nst != 1 {
            prev = None;
        }
        let (tn, h, ku) = (c.after.tn, c.after.hused, c.after.kused);
        if nst == 0 {
            continue;
        }
        let acc = at.last().map(|a| (0..n).map(|i| a.ypred[i] + a.ee[i]).collect::<Vec<f64>>()).unwrap();
        macro_rules! bad { ($($a:tt)*) => {{ fail(r, case, &s, format!("after step {} to t={:e} (h={:e}, order {}): {}", c.after.nst, tn, h, ku, format!($($a)*))); return; }} }
        macro_rules! dky { ($t:expr, $k:expr) => { match sim.dky($t, $k) { Ok(v) => v, Err(e) => bad!("derivative {} at {:e} (last step fraction {:.3}): {}", $k, $t, ($t - tn) / h + 1.0, e) } } }
        // accepted value at tn
        recent.push(acc.iter().map(|x| x.abs()).fold(1e-300, f64::max));
        // the history is stored as differences of recent values
        let ynorm: f64 = recent.iter().rev().take(8).cloned().fold(1e-300, f64::max);
        let d0 = dky!(tn, 0);
        for i in 0..n {
            if (d0[i] - acc[i]).abs() > 1e-12 * (acc[i].abs() + ynorm * 1e-3) {
                bad!("y[{}] at the current time is {:e}, the accepted value {:e}", i, d0[i], acc[i]);
            }
        }
        // the polynomial goes through the previous accepted value
        if let Some(p) = &prev {
            let q = dky!(tn - h, 0);
            let slope = dky!(tn - h, 1);
            for i in 0..n {
                // the start is only known to the rounding of the time
                let off = 4.0 * EPS * tn.abs() * slope[i].abs();
                if (q[i] - p[i]).abs() > 1e-11 * (p[i].abs() + ynorm) + off {
                    bad!("y[{}] at the start of the last step is {:e}, accepted before was {:e}", i, q[i], p[i]);
                }
            }
            r.count("continuity at step starts");
        }
        prev = Some(acc);
        if k % 3 != 0 && k > 6 {
            continue;
        }
        if h.abs() < 1000.0 * EPS * tn.abs() {
            r.count("steps at rounding level left out");
            continue;
        }
        // sample the zeroth derivative at Chebyshev nodes of the last step
        let m = ku + 1;
        let xs: Vec<f64> = (0..m).map(|j| tn - h * 0.5 * (1.0 + (std::f64::consts::PI * (j as f64 + 0.5) / m as f64).cos())).collect();
        let mut ys = vec![];
        for x in &xs {
            ys.push(dky!(*x, 0));
        }
        for q in 0..4 {
            let t = match q {
                0 => tn,
                1 => tn - h,
                _ => tn - h * g.unit(),
            };
            let (y, yp) = match sim.at(t) {
                Ok(x) => x,
                Err(e) => bad!("solution at {:e} within the last step: {}", t, e),
            };
            let ders: Vec<Vec<f64>> = {
                let mut v = vec![];
                for k in 0..=ku {
                    v.push(dky!(t, k));
                }
                v
            };
            for i in 0..n {
                let col: Vec<f64> = ys.iter().map(|v| v[i]).collect();
                let x0: Vec<f64> = xs.iter().map(|x| (x - tn) / h).collect();
                let want = poly_derivs(&x0, &col, (t - tn) / h, ku);
                let amp = col.iter().map(|v| v.abs()).fold(ynorm * 1e-6, f64::max);
                // rounding of the nodes relative to the step, and of the sampled values
                let noise = EPS * (1.0 + tn.abs() / h.abs()) * 16.0;
                let mut lip = amp;
                for k in 0..=ku {
                    lip = lip.max(ders[k][i].abs() * h.abs().powi(k as i32));
                }
                for k in 0..=ku {
                    let got = ders[k][i] * h.powi(k as i32);
                    let fac = [1.0, 50.0, 600.0, 4e3, 2e4, 6e4][k];
                    if !((got - want[k]).abs() <= fac * lip * (noise + 64.0 * EPS)) {
                        bad!("derivative {} of y[{}] at {:e}: {:e}, the interpolating polynomial has {:e} (both times h^{})", k, i, t, got, want[k], k);
                    }
                    r.count("derivatives compared");
                    if want[k].abs() > 1e3 * fac * lip * (noise + 64.0 * EPS) {
                        r.count(["value decided", "1st derivative decided", "2nd derivative decided", "3rd derivative decided", "4th derivative decided", "5th derivative decided"][k]);
                    }
                }
                let tol0 = 1e-11 * (amp + lip);
                if !((y[i] - ders[0][i]).abs() <= tol0) {
                    bad!("get_solution gives y[{}] = {:e} at {:e}, get_dky {:e}", i, y[i], t, ders[0][i]);
                }
                if !(((yp[i] - ders[1][i]) * h).abs() <= tol0) {
                    bad!("get_solution gives y'[{}] = {:e} at {:e}, get_dky {:e}", i, yp[i], t, ders[1][i]);
                }
            }
            sig.push(ders[ku][0]);
        }
        // rejections
        let fuzz = 100.0 * EPS * (tn.abs() + c.after.hh.abs());
        let tb = tn - h - s.dir * (fuzz * 4.0 + h.abs() * if g.chance(0.5) { 1e-6 } else { 3.0 * g.unit() });
        // the report names the time asked for and the interval that is available
        let told = |e: &str| !e.contains("BadTimeValue") || field(e, "t") == Some(tb) && field(e, "tcurr") == Some(tn) && field(e, "tdiff").map_or(false, |x| (x - (tn - h)).abs() <= 4.0 * EPS * (tn.abs() + h.abs()));
        for k in 0..=ku {
            match sim.dky(tb, k) {
                Err(e) if e.starts_with("error") => {
                    if !told(&e) {
                        bad!("derivative {} at {:e}, with the last step from {:e} to {:e}, reported as {}", k, tb, tn - h, tn, e);
                    }
                }
                o => bad!("derivative {} at {:e}, before the last step, gives {:?}", k, tb, o),
            }
        }
        match sim.at(tb) {
            Err(e) if e.starts_with("error") => {
                if !told(&e) {
                    bad!("solution at {:e}, with the last step from {:e} to {:e}, reported as {}", tb, tn - h, tn, e);
                }
            }
            o => bad!("solution at {:e}, before the last step, gives {:?}", tb, o),
        }
        for k in ku + 1..8 {
            match sim.dky(tn, k) {
                Err(e) if e.starts_with("error") && !e.contains("BadTimeValue") => {}
                o => bad!("derivative {} above the order gives {:?}", k, o),
            }
        }
        r.count("rejections checked");
        r.count(["", "order 1", "order 2", "order 3", "order 4", "order 5"][ku]);
    }
    r.distinct.insert(hash_f64s(sig.into_iter()));
}

/// Sparse random faults.
pub fn rand_plan(g: &mut Rng) -> Plan {
    let mut p = Plan { nls_after: g.chance(0.5), ..Plan::default() };
    let m = g.below(12);
    for _ in 0..m {
        let at = if g.chance(0.25) { g.below(4) } else { g.below(200) };
        let run = 1 + if g.chance(0.3) { g.below(9) } else { 0 };
        for k in at..at + run {
            match g.below(3) {
                0 => p.nls_fail.push(k),
                1 => p.err_fail.push(k),
                _ => p.ls_fail.push(k),
            }
        }
    }
    p
}

// ------------------------------------------------------------------------------------------ I04

fn i04(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I04", case);
    let mut s = if g.chance(0.8) { scen_manu(&mut g, false) } else { scen(&mut g) };
    let d = s.dir;
    let mut spec = (*s.spec).clone();
    let n = spec.n;
    // the step grid of an undisturbed run, to aim at
    let mut grid = vec![0.0];
    {
        let mut p = Sim::new(s.spec.clone(), s.tol.clone(), Plan::default());
        for _ in 0..120 {
            let c = p.solve(s.tend, true);
            if !c.out.ok() || (c.after.tn - s.tend) * d > 0.0 {
                break;
            }
            grid.push(c.after.tn);
        }
    }
    let m = 1 + g.below(4);
    let tmax = *grid.last().unwrap();
    if tmax == 0.0 {
        return;
    }
    let place = |g: &mut Rng| -> f64 {
        match g.below(8) {
            0 => {
                // within the first step
                let q = if grid.len() > 1 { grid[1] } else { tmax };
                q * g.unit()
            }
            1 => grid[g.below(grid.len())],
            2 => {
                let k = g.below(grid.len());
                grid[k] + d * 1e-12 * tmax.abs() * g.sym()
            }
            _ => tmax * g.unit(),
        }
    };
    let mut shared: Option<f64> = None;
    let mut aims: Vec<(f64, f64)> = vec![];
    for _ in 0..m {
        let sg = if g.chance(0.5) { 1.0 } else { -1.0 } * 10f64.powf(6.0 * g.unit() - 3.0);
        let f = match g.below(13) {
            10 | 11 => {
                // two zeros inside one step (sometimes across two), and sometimes another component's zero between
                let k = g.below(grid.len() - 1);
                let w = grid[(k + 1 + g.below(2)).min(grid.len() - 1)] - grid[k];
                let a = grid[k] + 0.9 * g.unit() * w;
                let b = a + (grid[k] + w - a) * (0.05 + 0.9 * g.unit());
                aims.push((a, b));
                if g.chance(0.4) {
                    spec.roots.push(RootFn::Time { a: a + (0.1 + 0.8 * g.unit()) * (b - a), s: -sg });
                }
                RootFn::Tri { a, b, s: sg }
            }
            12 => {
                let a = place(&mut g);
                RootFn::Flat { a, b: a + tmax * g.unit(), s: sg }
            }
            0..=3 => {
                let mut a = place(&mut g);
                if let (Some(b), true) = (shared, g.chance(0.4)) {
                    a = b + if g.chance(0.5) { 0.0 } else { tmax * 1e-9 * g.unit() };
                }
                shared = Some(a);
                RootFn::Time { a, s: sg }
            }
            4 if g.chance(0.5) => {
                // zero at the start, and again in one of the first steps
                let k = 1 + g.below(3.min(grid.len() - 1));
                RootFn::Tri { a: 0.0, b: grid[k - 1] + (grid[k] - grid[k - 1]) * (0.1 + 0.9 * g.unit()), s: sg }
            }
            4 => RootFn::Time { a: 0.0, s: sg }, // zero at the start
            5 => {
                let c = g.below(n);
                let v = match spec.exact(place(&mut g)) {
                    Some((y, _)) => y[c],
                    None => g.sym(),
                };
                RootFn::Y { c, v, s: sg }
            }
            6 => {
                let c = g.below(n);
                RootFn::Y { c, v: spec.initial().0[c], s: sg }
            }
            7 => {
                let c = g.below(n);
                let v = match spec.exact(place(&mut g)) {
                    Some((_, y)) => y[c],
                    None => g.sym(),
                };
                RootFn::Yp { c, v, s: sg }
            }
            8 => {
                let a = place(&mut g).abs();
                RootFn::Late { a, b: d * (a + g.unit() * tmax.abs()), s: sg }
            }
            _ => {
                if g.chance(0.3) {
                    RootFn::Zero
                } else {
                    RootFn::Sin { w: 30.0 * g.unit() / tmax.abs(), p: 6.0 * g.unit() }
                }
            }
        };
        spec.roots.push(f);
    }
    if g.chance(0.1) {
        // two zeros apart by exactly the distance at which the values beyond a root are taken
        let a = tmax * g.unit();
        let mut p = spec.clone();
        p.roots = vec![RootFn::Time { a, s: 1.0 }];
        let mut p = Sim::new(Rc::new(p), s.tol.clone(), Plan::default());
        for _ in 0..200 {
            let c = p.solve(s.tend, true);
            if c.out == Out::Root && c.tret == a {
                let ttol = (c.after.tn.abs() + c.after.hh.abs()) * EPS * 100.0;
                if g.chance(0.6) {
                    spec.roots.clear();
                }
                let q = if g.chance(0.5) { -1.0 } else { 1.0 };
                spec.roots.push(RootFn::Time { a, s: q });
                spec.roots.push(RootFn::Time { a: a + ttol * d, s: if g.chance(0.5) { -1.0 } else { 1.0 } });
                r.count("twin zeros tried");
                break;
            }
            if !c.out.ok() || c.out == Out::Root {
                break;
            }
        }
    }
    s.spec = Rc::new(spec);
    let nr = s.spec.roots.len();
    let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), Plan::default());
    r.evaluations += 1;
    let normal_only = g.chance(0.3);
    // state at the previous return: time, root values, and whether each component has been seen nonzero
    let (y0, yp0) = s.spec.initial();
    let mut glast = s.spec.root(0.0, &y0, &yp0);
    let mut tlast = 0.0f64;
    let mut h_first = 0.0;
    let mut h_try = f64::INFINITY;
    // components that were zero at the last return (their sign before does not count until they leave zero)
    let mut zero: Vec<bool> = glast.iter().map(|v| *v == 0.0).collect();
    let mut hits: Vec<(f64, usize)> = vec![];
    let mut end = 0.0f64;
    let mut closed = false;
    // the last return was a root at which a component is zero, and stays zero beyond the tolerance
    let mut must_close = false;
    for k in 0..300 {
        let mut one = !normal_only && g.chance(0.6);
        let mut tout = if one { s.tend } else { tlast + s.tend * 10f64.powf(-3.0 * g.unit()) };
        // return between the two zeros of a component
        if let Some((a, b)) = aims.iter().find(|(a, b)| (tlast - b) * d < 0.0 && ((tlast + sim.ida.get_current_setp()) - a) * d >= 0.0) {
            if g.chance(0.7) {
                let t = a + (0.1 + 0.8 * g.unit()) * (b - a);
                if (t - tlast) * d > 0.0 {
                    tout = t;
                    one = false;
                }
            }
        }
        if tout == tlast {
            continue;
        }
        let c = sim.solve(tout, one);
        if must_close && !matches!(&c.out, Out::Err(e) if e.contains("CloseRoots")) {
            fail(r, case, &s, format!("call {} from the root at {:e}, where a component is zero and stays zero, gave {:?} at {:e} instead of reporting close roots", k, tlast, c.out, c.tret));
            return;
        }
        if k == 0 {
            h_first = c.after.h0u;
        }
        let tag = format!("call {} ({} to {:e}) from {:e}: {:?} at {:e}, internal time {:e}, h={:e}", k, if one { "one step" } else { "normal" }, tout, tlast, c.out, c.tret, c.after.tn, c.after.hused);
        macro_rules! bad { ($($a:tt)*) => {{ fail(r, case, &s, format!("{}: {}", tag, format!($($a)*))); return; }} }
        let ttol = 100.0 * EPS * (c.after.tn.abs() + c.after.hh.abs().max(c.before.hh.abs()).max(c.after.hused.abs()));
        match &c.out {
            Out::Panic(p) => bad!("panic {}", p),
            Out::Err(e) => {
                if e.contains("CloseRoots") {
                    // legitimate only if some component is exactly zero at the last root and again just beyond it
                    closed = true;
                    let ev: Vec<(f64, &Vec<f64>)> = c.evs.iter().filter_map(|e| if let Ev::Root { t, g, .. } = e { Some((*t, g)) } else { None }).collect();
                    let just = match ev.as_slice() {
                        [.., a, b] => a.0 == tlast && (b.0 - a.0) * d > 0.0 && (b.0 - a.0).abs() <= 1.01 * ttol && (0..nr).any(|i| a.1[i] == 0.0 && b.1[i] == 0.0),
                        _ => false,
                    };
                    if !just {
                        bad!("close roots reported after root evaluations {:?}", ev);
                    }
                    if let Some(t) = e.split("t: ").nth(1).and_then(|x| x.split(' ').next()).and_then(|x| x.parse::<f64>().ok()) {
                        if t != tlast {
                            bad!("close roots reported at {:e}, not at the last root", t);
                        }
                    } else {
                        bad!("no time in the error");
                    }
                    if must_close {
                        r.count("plateaus reported");
                    }
                    r.count("close roots reported");
                    break;
                }
                if e.contains("mxstep") {
                    glast = s.spec.root(c.tret, &c.after.y, &c.after.yp);
                    let _ = &glast;
                    break;
                }
                break;
            }
            _ => {}
        }
        let (y, yp) = match sim.at(c.tret) {
            Ok(x) => x,
            Err(e) => bad!("no solution at the returned time: {}", e),
        };
        let gnow = s.spec.root(c.tret, &y, &yp);
        // values just before the returned time, if that is inside the last step
        let info = &c.after.roots;
        let is_root = c.out == Out::Root;
        if is_root {
            r.count("root returns");
            if (c.tret - tlast) * d <= 0.0 {
                bad!("a root return without progress from the last return");
            }
            if (c.tret - tlast).abs() <= 1.01 * ttol {
                r.count("roots within the tolerance of the last return");
            }
            if info.len() != nr || info.iter().all(|v| *v == 0.0) {
                bad!("root return without a component marked: {:?}", info);
            }
            if info.iter().filter(|v| **v != 0.0).count() > 1 {
                r.count("simultaneous roots");
            }
            let start = c.after.tn - c.after.hused;
            if (start * d <= 0.0) || c.after.nst == 1 {
                r.count("roots in the first step");
            }
        }
        let tb = c.tret - d * 1.5 * ttol;
        let before = if is_root && (tb - tlast) * d > 0.0 && (tb - (c.after.tn - c.after.hused)) * d > 0.0 { sim.at(tb).ok().map(|(y, yp)| s.spec.root(tb, &y, &yp)) } else { None };
        for i in 0..nr {
            let crossed = !zero[i] && glast[i] * gnow[i] < 0.0;
            let marked = is_root && info[i] != 0.0;
            // how large the component is within rounding of the returned point
            let tiny = {
                let a = sim.at(c.tret + d * 2.0 * ttol);
                let b = sim.at(c.tret - d * 2.0 * ttol);
                let mut m: f64 = 0.0;
                for (q, t) in [(a, c.tret + d * 2.0 * ttol), (b, c.tret - d * 2.0 * ttol)] {
                    if let Ok((y, yp)) = q {
                        m = m.max((s.spec.root(t, &y, &yp)[i] - gnow[i]).abs());
                    }
                }
                let (yn, pn) = (y.iter().map(|v| v.abs()).fold(0.0, f64::max), yp.iter().map(|v| v.abs()).fold(0.0, f64::max));
                let sc = match &s.spec.roots[i] {
                    RootFn::Y { c, v, s } => s.abs() * (y[*c].abs() + v.abs() + yn * 1e-3),
                    RootFn::Yp { c: q, v, s } => s.abs() * (yp[*q].abs() + v.abs() + pn + yn / c.after.hused.abs()),
                    _ => 0.0,
                };
                m + sc * 1e-13
            };
            if crossed && !marked && gnow[i].abs() > tiny && glast[i].abs() > 1e-300 {
                bad!("component {} ({:?}) went from {:e} to {:e} without being reported; marked {:?}", i, s.spec.roots[i], glast[i], gnow[i], info);
            }
            if marked {
                if !(info[i] == 1.0 || info[i] == -1.0) {
                    bad!("root information {:?}", info);
                }
                let zero_now = gnow[i].abs() <= tiny;
                // y' jumps from one step's interpolant to the next: a sign change right at the joint is a root there
                let joint = matches!(s.spec.roots[i], RootFn::Yp { .. }) && (c.tret - (c.after.tn - c.after.hused)).abs() <= 2.0 * ttol;
                if joint {
                    r.count("roots at the start of a step");
                }
                if !zero_now && !crossed && !joint {
                    // a component that became nonzero during the call and then crossed
                    let ok = before.as_ref().map_or(false, |b| b[i] * gnow[i] <= 0.0);
                    if !ok {
                        bad!("component {} ({:?}) is marked but has the value {:e} there and {:e} at the previous return", i, s.spec.roots[i], gnow[i], glast[i]);
                    }
                }
                // located to the tolerance
                if let Some(b) = &before {
                    if b[i] * gnow[i] > 0.0 && b[i].abs() > tiny && gnow[i].abs() > tiny {
                        bad!("component {} ({:?}) is marked but has the same sign {:e} at {:e} and {:e} at the root", i, s.spec.roots[i], b[i], tb, gnow[i]);
                    }
                }
                // direction: the sign a little before the root, at the first of several distances (inside the
                // step and after the previous return) at which the component is clearly nonzero
                let mut seen: Option<(f64, f64)> = None;
                for m in [1.5, 4.0, 16.0, 64.0, 256.0, 1024.0, 16384.0, 262144.0] {
                    let t = c.tret - d * m * ttol;
                    if !((t - tlast) * d > 0.0 && (t - (c.after.tn - c.after.hused)) * d > 0.0) {
                        break;
                    }
                    if let Ok((y, yp)) = sim.at(t) {
                        let b = s.spec.root(t, &y, &yp)[i];
                        if b.abs() > 1.5 * tiny {
                            seen = Some((t, b));
                            break;
                        }
                    }
                }
                if let Some((t, b)) = seen {
                    let want = if b < 0.0 { 1.0 } else { -1.0 };
                    if is_root && info[i] != want {
                        bad!("component {} ({:?}): value {:e} at {:e} before the root, direction reported {}", i, s.spec.roots[i], b, t, info[i]);
                    }
                    r.count(if want > 0.0 { "increasing roots" } else { "decreasing roots" });
                }
                // functions of time alone: exactly known
                let near = |a: f64| (c.tret - a).abs() <= 1.01 * ttol + 4.0 * EPS * a.abs();
                let ok = match s.spec.roots[i] {
                    RootFn::Time { a, .. } => near(a),
                    RootFn::Tri { a, b, .. } => near(a) || near(b),
                    RootFn::Flat { a, b, .. } => near(a) || near(b) || (c.tret - a) * (c.tret - b) <= 0.0,
                    // zero from the start on: not monitored until it has left zero
                    // (which it may have done a tenth of the first step from the start)
                    RootFn::Late { a, b, .. } => near(b) || a <= 0.101 * h_first.abs(),
                    RootFn::Zero | RootFn::Pos => false,
                    _ => true,
                };
                if !ok {
                    bad!("root of component {} ({:?}) located at {:e}", i, s.spec.roots[i], c.tret);
                }
                hits.push((c.tret, i));
            }
        }
        if k == 0 {
            h_try = c.evs.iter().find_map(|e| if let Ev::Res { t, .. } = e { Some(t.abs()) } else { None }).unwrap_or(f64::INFINITY);
        }
        // an earlier crossing of a function of time alone
        for i in 0..nr {
            if let RootFn::Tri { a, b, .. } = s.spec.roots[i] {
                // watched from a tenth of the first step on
                if a == 0.0 && b.abs() > 0.1 * h_try + 2.0 * ttol && (b - c.tret) * d < -2.0 * ttol {
                    r.count("zeros of functions that are zero at the start");
                    if !hits.iter().any(|(_, j)| *j == i) {
                        bad!("component {} ({:?}), zero at the start, was passed at its next zero", i, s.spec.roots[i]);
                    }
                }
            }
            if let RootFn::Time { a, .. } = s.spec.roots[i] {
                let gz = if a == 0.0 { 0.1 * h_first } else { 0.0 };
                let known = hits.iter().any(|(_, j)| *j == i);
                if !known && a != 0.0 && a * d > gz * d && (a - c.tret) * d < -2.0 * ttol {
                    bad!("the zero of component {} ({:?}) was passed", i, s.spec.roots[i]);
                }
                if a == 0.0 && known {
                    bad!("component {} is zero at the start and is reported as a root later", i);
                }
                if hits.iter().filter(|(_, j)| *j == i).count() > 1 {
                    bad!("the only zero of component {} ({:?}) was reported twice: {:?}", i, s.spec.roots[i], hits);
                }
            }
        }
        // values well beyond a root (its sign right at the root is decided by rounding)
        let ta = c.tret + d * 8.0 * ttol;
        let beyond = if is_root && (ta - c.after.tn) * d < 0.0 { sim.at(ta).ok().map(|(y, yp)| s.spec.root(ta, &y, &yp)) } else { None };
        for i in 0..nr {
            let marked = is_root && info[i] != 0.0;
            zero[i] = gnow[i] == 0.0 || marked;
            let timed = matches!(s.spec.roots[i], RootFn::Time { .. } | RootFn::Tri { .. } | RootFn::Flat { .. } | RootFn::Sin { .. });
            let v = if timed { Some(s.spec.roots[i].eval(ta, &[], &[])) } else { beyond.as_ref().map(|b| b[i]) };
            if let (true, Some(v)) = (marked, v) {
                // the side the component has gone to
                let var = (v - gnow[i]).abs() / 8.0;
                let sc = match &s.spec.roots[i] {
                    RootFn::Y { c: q, v, s } => s.abs() * (y[*q].abs() + v.abs() + y.iter().map(|v| v.abs()).fold(0.0, f64::max) * 1e-3),
                    RootFn::Yp { .. } => f64::INFINITY,
                    _ => 0.0,
                };
                if v * info[i] > 0.0 && v.abs() > 2.0 * var + sc * 1e-12 {
                    zero[i] = false;
                    glast[i] = v;
                    r.count("sides after a root");
                }
                if let RootFn::Flat { a, b, .. } = s.spec.roots[i] {
                    if (c.tret - a) * d >= 0.0 && (b - ta) * d > 0.0 {
                        must_close = true;
                    }
                }
            }
            if !zero[i] && !marked {
                glast[i] = gnow[i];
            }
        }
        tlast = c.tret;
        end = c.tret;
        if (tlast - s.tend) * d >= 0.0 {
            break;
        }
    }
    // every crossing of a function of time alone up to the end
    let tn = sim.ida.get_current_time();
    let _ = closed;
    for (i, f) in s.spec.roots.iter().enumerate() {
        if let RootFn::Time { a, .. } = f {
            if *a != 0.0 && *a * d > 0.0 && (*a - end) * d < -1e-11 * tn.abs() {
                r.count("zeros of time functions passed");
                if !hits.iter().any(|(_, j)| *j == i) {
                    fail(r, case, &s, format!("the zero of component {} ({:?}) was never reported, although the integration returned at {:e}", i, f, end));
                    return;
                }
            }
        }
    }
    r.distinct.insert(hash_f64s(hits.iter().map(|h| h.0).chain([tn].into_iter())));
}

// ------------------------------------------------------------------------------------------ I07

fn cj_of(k: usize, h: f64) -> f64 {
    (1..=k).map(|i| 1.0 / i as f64).sum::<f64>() / h
}

fn i07(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I07", case);
    let mut s = scen(&mut g);
    if g.chance(0.6) {
        let f = s.tend;
        add_roots(&mut g, &mut s, f);
    }
    let plan = if g.chance(0.4) { rand_plan(&mut g) } else { Plan::default() };
    let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), plan);
    r.evaluations += 1;
    let n = s.spec.n;
    let d = s.dir;
    let mut sig = vec![];
    for k in 0..(30 + g.below(100)) {
        let one = k == 0 || g.chance(0.8);
        let tout = if one { s.tend } else { sim.ida.get_current_time() + 3.0 * g.unit() * sim.ida.get_current_setp() };
        // the solution around the internal time as derivatives there: what root evaluations before the next step must see
        let mut taylor: Vec<Vec<f64>> = vec![];
        if k > 0 && !s.spec.roots.is_empty() {
            let tn = sim.ida.get_current_time();
            for q in 0..=sim.ida.get_last_order() {
                match sim.dky(tn, q) {
                    Ok(v) => taylor.push(v),
                    Err(_) => {
                        taylor.clear();
                        break;
                    }
                }
            }
        }
        let c = sim.solve(tout, one);
        macro_rules! bad { ($($a:tt)*) => {{ fail(r, case, &s, format!("call {} from t={:e}: {}", k, c.before.tn, format!($($a)*))); return; }} }
        if let Out::Panic(p) = &c.out {
            bad!("panic {}", p);
        }
        let at = attempts(&c.evs);
        if !taylor.is_empty() {
            let to = at.first().map_or(c.evs.len(), |a| a.lo);
            for e in &c.evs[..to] {
                if let Ev::Root { t, y, yp, .. } = e {
                    let dt = t - c.before.tn;
                    if dt * d > 0.0 && dt.abs() > 210.0 * EPS * (c.before.tn.abs() + c.before.hh.abs().max(c.before.hused.abs())) || (dt + c.before.hused) * d < -1e-9 * c.before.hused.abs() {
                        bad!("root function evaluated at t={:e}, outside the last step [{:e}, {:e}]", t, c.before.tn - c.before.hused, c.before.tn);
                    }
                    for i in 0..n {
                        let (mut v, mut p, mut sv, mut sp, mut f) = (0.0, 0.0, 0.0, 0.0, 1.0);
                        for q in 0..taylor.len() {
                            if q > 0 {
                                p += taylor[q][i] * f;
                                sp += (taylor[q][i] * f).abs();
                                f *= dt / q as f64;
                            }
                            v += taylor[q][i] * f;
                            sv += (taylor[q][i] * f).abs();
                        }
                        // just beyond the internal time the solution is extended by its slope, y' is not
                        // (and the slope is the divided difference over the step)
                        let hu = c.before.hused.abs();
                        let curve: f64 = (2..taylor.len()).map(|q| taylor[q][i].abs() * hu.powi(q as i32 - 1)).sum();
                        let (ey, ep) = if dt * d > 0.0 { (dt.abs() * (sp + curve), dt.abs() * (sp + curve) / hu) } else { (0.0, 0.0) };
                        if (y[i] - v).abs() > 200.0 * EPS * sv + 2.0 * ey + 1e-300 || ((yp[i] - p) * c.before.hused).abs() > 1e-10 * ((sp * c.before.hused).abs() + sv) + 20.0 * ep * c.before.hused.abs() {
                            bad!("root function at t={:e} (internal time {:e}, step {:e}) was given y[{}]={:e} y'={:e}, the solution there is {:e} {:e}", t, c.before.tn, c.before.hused, i, y[i], yp[i], v, p);
                        }
                    }
                    r.count("root evaluations before a step compared with the solution");
                }
            }
        }
        for (ia, a) in at.iter().enumerate() {
            if a.ypred.is_empty() {
                continue;
            }
            let yn = a.ypred.iter().map(|x| x.abs()).fold(0.0, f64::max);
            if !((a.t - c.before.tn) * d > 0.0) {
                // only rounding may keep a tiny step from advancing
                let h = at.get(ia.wrapping_sub(1)).map_or(c.before.hh, |p| p.t - c.before.tn);
                if h.abs() * 0.25 <= 2.0 * EPS * c.before.tn.abs() && c.before.nst > 0 && a.t == c.before.tn {
                    r.count("runs ended at rounding level");
                    return;
                }
                bad!("residual evaluated at t={:e}, not after {:e}", a.t, c.before.tn);
            }
            // cj from the first attempt of a one-step call, where order and step are known
            let mut cjs: Vec<f64> = if ia == 0 && one && c.before.nst > 0 && c.before.tn == c.before.tn {
                vec![cj_of(c.before.kk, c.before.hh)]
            } else if ia == 0 && c.before.nst == 0 {
                vec![cj_of(1, c.after.h0u)]
            } else if c.before.nst == 0 && one {
                vec![cj_of(1, a.t)]
            } else {
                vec![]
            };
            let mut cj_rel = 1e-12f64;
            let mut lastres: Option<(f64, Vec<f64>, Vec<f64>, Vec<f64>)> = None;
            let mut prev_is_res = false;
            let mut cor: Option<Vec<f64>> = None;
            for e in &c.evs[a.lo..a.hi.min(c.evs.len())] {
                match e {
                    Ev::Res { t, y, yp, r: rr } => {
                        if *t != a.t {
                            bad!("residual evaluations of one attempt at t={:e} and t={:e}", a.t, t);
                        }
                        // y' = y'pred + cj (y - ypred)
                        for i in 0..n {
                            let dy = y[i] - a.ypred[i];
                            let dp = yp[i] - a.yppred[i];
                            let noise_y = 4.0 * EPS * (y[i].abs() + a.ypred[i].abs());
                            let noise_p = 4.0 * EPS * (yp[i].abs() + a.yppred[i].abs());
                            if cjs.is_empty() && dy.abs() > 1e4 * noise_y && dp.abs() > 1e4 * noise_p {
                                cjs.push(dp / dy);
                                // one of the admissible values for this step size
                                let q = dp / dy * (a.t - c.before.tn);
                                let rel = noise_y / dy.abs() + noise_p / dp.abs();
                                cj_rel = 2.0 * rel;
                                let hrel = 4.0 * EPS * a.t.abs() / (a.t - c.before.tn).abs();
                                if one && !(1..=5).any(|k| (q - cj_of(k, 1.0)).abs() <= (1e-6 + 10.0 * rel + hrel) * q.abs() + 1e-9) {
                                    bad!("y' moves by {:e} times the change of y over a step of {:e}", dp / dy, a.t - c.before.tn);
                                }
                            } else if let Some(cj) = cjs.first() {
                                let tol = 2.0 * noise_p + 2.0 * cj.abs() * noise_y + (1e-11 + cj_rel) * dp.abs().max((cj * dy).abs());
                                if (dp - cj * dy).abs() > tol {
                                    bad!("residual at t={:e} with y[{}] {:e} off the prediction and y' {:e} off; cj is {:e}", t, i, dy, dp, cj);
                                }
                                r.count("y' relations checked");
                            }
                        }
                        let _ = yn;
                        if let Some(cor) = &cor {
                            for i in 0..n {
                                let want = a.ypred[i] + cor[i];
                                if (y[i] - want).abs() > 8.0 * EPS * (a.ypred[i].abs() + cor[i].abs()) {
                                    bad!("residual evaluated with y[{}] = {:e} for the iterate {:e}", i, y[i], want);
                                }
                            }
                        }
                        lastres = Some((*t, y.clone(), yp.clone(), rr.clone()));
                        prev_is_res = true;
                        r.count("residual evaluations");
                    }
                    Ev::Sys { y, f, .. } => {
                        // what the nonlinear solver asked for and got
                        if let Some((_, ry, _, rr)) = &lastres {
                            if rr != f && !f.iter().any(|x| x.is_nan()) {
                                bad!("the nonlinear solver received {:?}, the residual was {:?}", f, rr);
                            }
                            for i in 0..n {
                                let want = a.ypred[i] + y[i];
                                if (ry[i] - want).abs() > 8.0 * EPS * (a.ypred[i].abs() + y[i].abs()) {
                                    bad!("residual evaluated at y[{}] = {:e} for the iterate {:e}", i, ry[i], want);
                                }
                            }
                        }
                        cor = None;
                    }
                    Ev::Jac { t, cj, y, yp, r: rr, zeroed, .. } => {
                        r.count("Jacobian evaluations");
                        match &lastres {
                            None => bad!("Jacobian evaluated before any residual"),
                            Some((lt, ly, lyp, lr)) => {
                                if t != lt {
                                    bad!("Jacobian evaluated at t={:e}, the residual before it at t={:e}", t, lt);
                                }
                                if y != ly || yp != lyp {
                                    bad!("Jacobian evaluated at y={:?} y'={:?}, the residual before it at y={:?} y'={:?}", y, yp, ly, lyp);
                                }
                                if rr != lr {
                                    bad!("Jacobian given the residual {:?}, it was {:?}", rr, lr);
                                }
                            }
                        }
                        let _ = prev_is_res;
                        if !zeroed {
                            bad!("the Jacobian matrix was not zeroed at t={:e}", t);
                        }
                        if let Some(q) = cjs.first() {
                            if (cj - q).abs() > (1e-10 + cj_rel) * q.abs() {
                                bad!("Jacobian at t={:e} with cj={:e}, the step uses {:e}", t, cj, q);
                            }
                            cjs = vec![*cj];
                            cj_rel = 0.0;
                        } else {
                            let q = cj * (a.t - c.before.tn);
                            let hrel = 4.0 * EPS * a.t.abs() / (a.t - c.before.tn).abs();
                            if one && !(1..=5).any(|k| (q - cj_of(k, 1.0)).abs() <= (1e-9 + hrel) * q.abs()) {
                                bad!("Jacobian with cj={:e} for a step of {:e}", cj, a.t - c.before.tn);
                            }
                            cjs = vec![*cj];
                            cj_rel = 0.0;
                        }
                    }
                    Ev::LsSetup { a: m, .. } => {
                        // the matrix factored is the one the user filled
                        let ja = c.evs[a.lo..a.hi].iter().rev().find_map(|e| if let Ev::Jac { a, .. } = e { Some(a) } else { None });
                        if let Some(ja) = ja {
                            let later = c.evs[a.lo..a.hi].iter().filter(|e| matches!(e, Ev::Jac { .. })).count();
                            if later == 1 && ja != m {
                                bad!("matrix factored {:?}, the user's Jacobian is {:?}", m, ja);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        // root evaluations after the last attempt belong to the last step
        if !s.spec.roots.is_empty() {
            let from = at.last().map_or(0, |a| a.hi);
            let steps = c.after.nst - c.before.nst;
            let evs: Vec<(f64, Vec<f64>, Vec<f64>)> = c.evs[from.min(c.evs.len())..].iter().filter_map(|e| if let Ev::Root { t, y, yp, .. } = e { Some((*t, y.clone(), yp.clone())) } else { None }).collect();
            if k == 0 {
                // evaluations before the first step
                let first: Vec<_> = c.evs[..at.first().map_or(c.evs.len(), |a| a.lo)].iter().filter_map(|e| if let Ev::Root { t, y, yp, .. } = e { Some((*t, y.clone(), yp.clone())) } else { None }).collect();
                for (q, (t, y, yp)) in first.iter().enumerate() {
                    let (y0, p0) = (&sim.y0, &sim.yp0);
                    if q == 0 && *t != 0.0 {
                        bad!("first root evaluation at t={:e}", t);
                    }
                    for i in 0..n {
                        let want = y0[i] + t * p0[i];
                        if (y[i] - want).abs() > 1e-12 * (y0[i].abs() + (t * p0[i]).abs()) || yp[i] != p0[i] {
                            bad!("root function evaluated at t={:e} with y={:?} y'={:?}, the initial values are {:?} {:?}", t, y, yp, y0, p0);
                        }
                    }
                    r.count("root evaluations before the first step");
                }
            }
            if steps >= 1 && c.out.ok() {
                for (t, y, yp) in &evs {
                    if (*t - c.after.tn) * d > 0.0 || (*t - (c.after.tn - c.after.hused)) * d < -1e-9 * c.after.hused.abs() {
                        bad!("root function evaluated at t={:e}, outside the last step [{:e}, {:e}]", t, c.after.tn - c.after.hused, c.after.tn);
                    }
                    match sim.at(*t) {
                        Ok((y2, yp2)) => {
                            if y != &y2 || yp != &yp2 {
                                // a refactored evaluation may round differently
                                for i in 0..n {
                                    let sc = y2[i].abs() + yp2[i].abs() * c.after.hused.abs();
                                    if (y[i] - y2[i]).abs() > 1e-11 * sc || ((yp[i] - yp2[i]) * c.after.hused).abs() > 1e-10 * (sc + y2.iter().map(|x| x.abs()).fold(0.0, f64::max)) {
                                        bad!("root function at t={:e} was given y={:?} y'={:?}, the solution there is {:?} {:?}", t, y, yp, y2, yp2);
                                    }
                                }
                            }
                            r.count("root evaluations compared with the solution");
                        }
                        Err(e) => bad!("no solution at t={:e}: {}", t, e),
                    }
                }
            }
        }
        sig.push(c.after.tn);
        if !c.out.ok() {
            break;
        }
    }
    r.distinct.insert(hash_f64s(sig.into_iter()));
}

// ------------------------------------------------------------------------------------------ I08

fn i08(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I08", case);
    let mut s = scen(&mut g);
    if g.chance(0.4) {
        let f = s.tend;
        add_roots(&mut g, &mut s, f);
    }
    let mut plan = if g.chance(0.6) { rand_plan(&mut g) } else { Plan::default() };
    if g.chance(0.1) {
        // failures that end a call or two, often the first
        let at = if g.chance(0.6) { 0 } else { g.below(100) };
        plan.nls_fail.extend(at..at + 10 + g.below(25));
    }
    // one run long enough to show counters that are too small
    let marathon = case == 7;
    if marathon {
        let roots = vec![RootFn::Y { c: 0, v: 0.1, s: 1.0 }, RootFn::Y { c: 2, v: 25.3, s: -1.0 }];
        s = Scen { spec: Rc::new(Spec { n: 3, kind: Kind::Lorenz, roots }), tol: Tol::ss(1e-7, 1e-7), tend: 1e6, dir: 1.0 };
        plan = Plan::default();
        for _ in 0..400 {
            plan.nls_fail.push(g.below(70000));
        }
    }
    let mut errs = 0;
    let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), plan);
    r.evaluations += 1;
    let d = s.dir;
    let (mut nst, mut netf, mut ncfn) = (0usize, 0usize, 0usize);
    let mut sig = vec![];
    for k in 0..(if marathon { 90000 } else { 20 + g.below(60) }) {
        let one = marathon || g.chance(0.4);
        let base = sim.ida.get_current_time();
        let tout = if one || c_nst(&sim) == 0 { s.tend } else { base + 10.0 * g.unit() * sim.ida.get_current_setp() };
        let c = sim.solve(tout, one);
        macro_rules! bad { ($($a:tt)*) => {{ fail(r, case, &s, format!("call {} ({}, {:?}, t {:e} -> {:e}): {}", k, if one { "one step" } else { "normal" }, c.out, c.before.tn, c.after.tn, format!($($a)*))); return; }} }
        let at = attempts(&c.evs);
        if at.windows(2).any(|w| (w[1].t - w[0].t).abs() <= 100.0 * EPS * w[0].t.abs() && w[0].err.is_none()) {
            // steps at rounding level cannot be told from repeated ones
            r.count("runs ended at rounding level");
            break;
        }
        let mut last_ok: Option<&Attempt> = None;
        // an attempt was accepted if the next one goes further, or if it is the last one of a call that did not fail in step
        let step_error = matches!(&c.out, Out::Err(e) if !e.contains("mxstep") && !e.contains("CloseRoots") && !e.contains("TooMuch") && !e.contains("ewt"));
        for (i, a) in at.iter().enumerate() {
            let accepted = match at.get(i + 1) {
                Some(b) => (b.t - a.t) * d > 0.0,
                None => !step_error && !matches!(c.out, Out::Panic(_)),
            };
            match (&a.err, accepted) {
                (None, true) => {
                    nst += 1;
                    last_ok = Some(a);
                }
                (None, false) => netf += 1,
                (Some(_), false) => ncfn += 1,
                (Some(e), true) => bad!("an attempt whose nonlinear solve failed ({}) was accepted at t={:e}", e, a.t),
            }
        }
        if let Out::Panic(p) = &c.out {
            if r.nviol == 0 {
                // reported by I12
                r.count("runs ended by a panic");
            }
            let _ = p;
            break;
        }
        let t = &sim.total;
        let p = &c.after;
        let hard = matches!(&c.out, Out::Err(e) if e.contains("IllegalInput") && !e.contains("mxstep"));
        let pairs: [(&str, usize, usize); 8] = [
            ("steps", p.nst, nst),
            ("residual evaluations", p.nre, t.res),
            ("Jacobian evaluations", p.nje, t.jac),
            ("linear setups", p.nsetups, t.lsetup),
            ("nonlinear iterations", p.nni, t.lsolve),
            ("error test failures", p.netf, netf),
            ("convergence failures", p.ncfn, ncfn),
            ("root evaluations", p.nge, t.root),
        ];
        for (name, got, want) in pairs {
            if name == "nonlinear iterations" && got != want {
                // an iteration whose linear solve failed may or may not count
                if got + 1 == want && sim.plan.ls_calls > 0 && false {
                    continue;
                }
            }
            if got != want && !hard {
                bad!("{} reported as {}, {} happened (steps {} error failures {} convergence failures {} total {:?})", name, got, want, nst, netf, ncfn, t);
            }
        }
        let b = &c.before;
        if [p.nst < b.nst, p.nre < b.nre, p.nje < b.nje, p.nsetups < b.nsetups, p.nni < b.nni, p.netf < b.netf, p.ncfn < b.ncfn, p.nge < b.nge].iter().any(|x| *x) {
            bad!("a counter decreased: {:?} -> {:?}", b, p);
        }
        // last step and order
        if let Some(a) = last_ok {
            if a.t != p.tn && (a.t - p.tn).abs() > 1e-13 * (p.tn.abs() + p.hused.abs()) {
                bad!("current time {:e}, the last accepted step ended at {:e}", p.tn, a.t);
            }
            let q = at.iter().position(|x| x.lo == a.lo).unwrap();
            // start of that step: the end of the accepted one before it
            let start = if p.nst == b.nst + 1 {
                Some(b.tn)
            } else {
                let mut st = None;
                for j in (0..q).rev() {
                    if (at[j + 1].t - at[j].t) * d > 0.0 {
                        st = Some(at[j].t);
                        break;
                    }
                }
                st
            };
            if let Some(st) = start {
                let h = a.t - st;
                if (p.hused - h).abs() > 1e-9 * h.abs() + 4.0 * EPS * a.t.abs() {
                    bad!("last step reported as {:e}, it went from {:e} to {:e}", p.hused, st, a.t);
                }
                // order from the Jacobian's cj, when one was evaluated in that attempt
                for e in &c.evs[a.lo..a.hi] {
                    if let Ev::Jac { cj, .. } = e {
                        if (cj - cj_of(p.kused, p.hused)).abs() > 1e-6 * cj.abs() {
                            bad!("last order reported as {}, the step used cj h = {:e}", p.kused, cj * p.hused);
                        }
                        r.count("last orders checked");
                    }
                }
                r.count("last steps checked");
            }
        }
        r.count("calls with all counters compared");
        // the advertised next step is the one attempted next
        sig.push(p.hh);
        if !c.out.ok() {
            errs += 1;
            r.count("calls that failed");
            if !step_error || errs > 3 {
                break;
            }
        }
        if (p.tn - 20.0 * s.tend) * d > 0.0 {
            break;
        }
    }
    if marathon && nst > 70000 {
        r.count("runs of more than 70000 steps");
    }
    for (k, v) in [("error test failures", netf), ("convergence failures", ncfn), ("steps", nst)] {
        r.add(k, v as u64);
    }
    r.distinct.insert(hash_f64s(sig.into_iter()));
}

// ------------------------------------------------------------------------------------------ I09

fn c_nst(s: &Sim) -> usize {
    s.ida.get_num_steps()
}

fn i09(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I09", case);
    let s = scen(&mut g);
    let plan = if g.chance(0.4) { rand_plan(&mut g) } else { Plan::default() };
    let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), plan);
    r.evaluations += 1;
    let n = s.spec.n;
    let mut hs: Vec<f64> = vec![];
    let mut klast = 1usize;
    let mut sig = vec![];
    for k in 0..(40 + g.below(260)) {
        let c = sim.solve(s.tend, true);
        macro_rules! bad { ($($a:tt)*) => {{ fail(r, case, &s, format!("step {} from t={:e}: {}", k, c.before.tn, format!($($a)*))); return; }} }
        if !c.out.ok() {
            break;
        }
        let at = attempts(&c.evs);
        if c.after.nst != c.before.nst + 1 || at.is_empty() {
            bad!("a one-step call took {} steps", c.after.nst - c.before.nst);
        }
        let a = at.last().unwrap();
        let (h, ku) = (c.after.hused, c.after.kused);
        if c.before.nst == 0 {
            let w: Vec<f64> = (0..n).map(|i| s.tol.weight(i, sim.y0[i])).collect();
            let yn = wrms(&sim.yp0, &w);
            let mut h0 = 0.001 * s.tend.abs();
            let edge = (yn * h0 / 2.0 - 1.0).abs() < 1e-9;
            if yn > 2.0 / h0 {
                h0 = 0.5 / yn;
                r.count("initial steps limited by the derivative");
            } else {
                r.count("initial steps from the first output distance");
            }
            if !edge && (c.after.h0u - s.dir * h0).abs() > 1e-9 * h0 {
                bad!("initial step {:e}, expected {:e}", c.after.h0u, s.dir * h0);
            }
            if (at[0].t - c.after.h0u).abs() > 1e-12 * c.after.h0u.abs() {
                bad!("first attempt at t={:e}, the initial step is {:e}", at[0].t, c.after.h0u);
            }
            if ku != 1 {
                bad!("first step with order {}", ku);
            }
        } else {
            if !(1..=5).contains(&ku) || (ku as i64 - klast as i64) > 1 {
                bad!("order {} after {}", ku, klast);
            }
            if at.len() == 1 && (ku as i64 - klast as i64).abs() > 1 {
                bad!("order {} after {} without a failed attempt", ku, klast);
            }
            if (c.before.kk as i64 - c.before.kused as i64).abs() > 1 || c.before.kk < 1 || c.before.kk > 5 {
                bad!("next order {} after {}", c.before.kk, c.before.kused);
            }
            let hl = *hs.last().unwrap();
            if h * hl <= 0.0 || h.abs() > 2.0 * hl.abs() * (1.0 + 1e-12) {
                bad!("step {:e} after {:e}", h, hl);
            }
            if at.len() == 1 && (h - c.before.hh).abs() > 1e-12 * h.abs() {
                bad!("step {:e}, {:e} was announced", h, c.before.hh);
            }
        }
        if h * s.dir <= 0.0 || c.after.hh * s.dir <= 0.0 {
            bad!("step {:e}, next {:e} against the direction of integration", h, c.after.hh);
        }
        if c.after.hh.abs() > 2.0 * h.abs() * (1.0 + 1e-12) {
            bad!("next step {:e} after {:e}", c.after.hh, h);
        }
        // local error test, from the sums of the last steps
        hs.push(h);
        let m = hs.len();
        let psi: Vec<f64> = (0..=ku).map(|j| (0..=j).map(|q| if q < m { hs[m - 1 - q] } else { 0.0 }).sum()).collect();
        // at the first step the method acts as if a step of the same size preceded it
        let psi: Vec<f64> = if m == 1 { vec![h, 2.0 * h] } else { psi };
        if m >= ku + 1 || m == 1 {
            let alpha: Vec<f64> = psi.iter().map(|p| h / p).collect();
            let alphas: f64 = -(1..=ku).map(|i| 1.0 / i as f64).sum::<f64>();
            let alpha0: f64 = -alpha[..ku].iter().sum::<f64>();
            let ck = (alpha[ku] + alphas - alpha0).abs().max(alpha[ku]);
            let e = ck * wrms(&a.ee, &a.w);
            if e > 1.0 + 1e-6 {
                bad!("accepted with a local error estimate of {:e} (order {}, h={:e})", e, ku, h);
            }
            r.count("local error tests recomputed");
            if e > 0.5 {
                r.count("local error above half the limit");
            }
            // the weights are those of the last accepted solution
            let yl: Vec<f64> = if m == 1 { sim.y0.clone() } else { c.before.y.clone() };
            for i in 0..n {
                let w = s.tol.weight(i, yl[i]);
                if (w - a.w[i]).abs() > 1e-9 * w && sim.plan.ewt_scale.is_none() {
                    bad!("weight {} of the step is {:e}, from the last solution {:e} it is {:e}", i, a.w[i], yl[i], w);
                }
            }
        }
        if at.len() > 1 {
            r.count("steps with failed attempts");
            for w in at.windows(2) {
                if !((w[1].t - c.before.tn).abs() <= 0.9 * (w[0].t - c.before.tn).abs() * (1.0 + 1e-9) + 4.0 * EPS * c.before.tn.abs()) {
                    bad!("retry at t={:e} after a failed attempt at t={:e}", w[1].t, w[0].t);
                }
                if !((w[1].t - c.before.tn).abs() >= 0.25 * (w[0].t - c.before.tn).abs() * (1.0 - 1e-9) - 4.0 * EPS * c.before.tn.abs()) {
                    bad!("retry at t={:e} after a failed attempt at t={:e}: reduced by more than a factor of 4", w[1].t, w[0].t);
                }
            }
        }
        r.count(["", "order 1", "order 2", "order 3", "order 4", "order 5"][ku]);
        klast = ku;
        sig.push(h);
        if (c.after.tn - 1e3 * s.tend) * s.dir > 0.0 {
            break;
        }
    }
    r.distinct.insert(hash_f64s(sig.into_iter()));
}

// ------------------------------------------------------------------------------------------ I10

fn i10(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I10", case);
    let mut s = scen(&mut g);
    let first = s.tend * 10f64.powf(-2.0 * g.unit());
    if g.chance(0.3) {
        add_roots(&mut g, &mut s, first);
    }
    let plan = if g.chance(0.3) { rand_plan(&mut g) } else { Plan::default() };
    r.evaluations += 1;
    let d = s.dir;
    // run a style, return the accepted (t, h, k) and the solution at given times
    let mut styles: Vec<Vec<(f64, f64, usize, Vec<f64>)>> = vec![];
    let mut names = vec![];
    for style in 0..5 {
        let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), plan.clone());
        let mut gg = Rng::new(cfg.seed, "I10s", case * 8 + style as u64);
        let mut rec: Vec<(f64, f64, usize, Vec<f64>)> = vec![];
        let mut tout = first;
        let mut calls = 0;
        loop {
            let one = match style {
                0 | 4 => true,
                1 | 2 => false,
                _ => gg.chance(0.5),
            };
            let c = sim.solve(tout, one);
            calls += 1;
            if !c.out.ok() {
                break;
            }
            if c.after.nst != c.before.nst {
                rec.push((c.after.tn, c.after.hused, c.after.kused, if c.after.nst == c.before.nst + 1 { attempts(&c.evs).last().map(|a| a.ee.clone()).unwrap_or_default() } else { vec![] }));
            }
            if style >= 2 && style != 4 || style == 4 {
                if style != 4 || gg.chance(0.7) {
                    // dense output between calls
                    let (tn, h) = (c.after.tn, c.after.hused);
                    if c.after.nst > 0 {
                        for _ in 0..gg.below(3) {
                            let t = tn - h * gg.unit();
                            let _ = sim.at(t);
                            let _ = sim.dky(t, gg.below(c.after.kused + 1));
                        }
                        if gg.chance(0.2) {
                            let _ = sim.at(tn - 50.0 * h);
                            let _ = sim.dky(tn, 9);
                        }
                    }
                }
            }
            if (sim.ida.get_current_time() - s.tend) * d > 0.0 || calls > 400 || sim.ida.get_num_steps() > 300 {
                break;
            }
            if !one && c.out != Out::Root {
                let q = match style {
                    1 => s.tend * 0.05,
                    2 => c.after.hh * 0.4 * gg.unit(),
                    _ => c.after.hh * 3.0 * gg.unit(),
                };
                tout = c.tret + q;
                if tout == c.tret {
                    tout = s.tend;
                }
            } else if one {
                tout = if calls == 1 { tout } else { s.tend * 2.0 };
            }
        }
        names.push(calls);
        styles.push(rec);
    }
    // repeated run: style 0 again, bit for bit
    let base = &styles[0];
    for (k, other) in styles.iter().enumerate().skip(1) {
        let mut j = 0;
        let tl = base.last().map_or(0.0, |b| b.0);
        for (t, h, ku, ee) in other {
            if (*t - tl) * d > 0.0 || h.abs() < 100.0 * EPS * t.abs() {
                break;
            }
            while j < base.len() && ((base[j].0 - *t) * d < 0.0 || base[j].0 == *t && (base[j].1 != *h || base[j].2 != *ku)) {
                // (steps at rounding level may end at the same time)
                j += 1;
            }
            if j >= base.len() || base[j].0 != *t || base[j].1 != *h || base[j].2 != *ku {
                return fail(r, case, &s, format!("way {} of asking: a step ended at t={:e} (h={:e}, order {}); asked step by step the nearest one is {:?}", k, t, h, ku, base.get(j).map(|b| (b.0, b.1, b.2))));
            }
            if !ee.is_empty() && ee != &base[j].3 {
                return fail(r, case, &s, format!("way {} of asking: the correction at t={:e} is {:?}, asked step by step it is {:?}", k, t, ee, base[j].3));
            }
            r.count("internal steps compared");
        }
    }
    r.add("calls", names.iter().map(|n| *n as u64).sum());
    r.distinct.insert(hash_f64s(base.iter().map(|b| b.0)));
}

// ------------------------------------------------------------------------------------------ I11

fn i11(cfg: &Cfg, case: u64, r: &mut Report) {
    use ida::tol_control::TolControl;
    use ida::{NormRms, NormRmsMasked};
    use ndarray::prelude::*;
    let mut g = Rng::new(cfg.seed, "I11", case);
    r.evaluations += 1;
    let n = match g.below(5) {
        0 => 1,
        1 => 2 + g.below(6),
        2 => 8 + g.below(60),
        3 => 64 + g.below(700),
        _ => 1 + g.below(40),
    };
    let val = |g: &mut Rng| -> f64 {
        match g.below(12) {
            0 => 0.0,
            1 => -0.0,
            2 => 10f64.powf(150.0 * g.sym()) * g.sym(),
            3 => 10f64.powf(60.0 * g.sym()) * g.sym(),
            4 => g.range(-3, 3) as f64,
            _ => g.sym() * 10f64.powf(4.0 * g.sym()),
        }
    };
    let y: Vec<f64> = (0..n).map(|_| val(&mut g)).collect();
    let rtol = match g.below(4) {
        0 => 0.0,
        _ => 10f64.powf(-10.0 * g.unit()),
    };
    let ss = g.chance(0.5);
    let atol: Vec<f64> = (0..if ss { 1 } else { n }).map(|_| if g.chance(0.05) && rtol > 0.0 { 0.0 } else { 10f64.powf(-16.0 * g.unit()) }).collect();
    let tol = Tol { rtol, atol, scalar: ss };
    let mut w = Array1::<f64>::from_elem(n, f64::NAN);
    let ya = Array1::from_vec(y.clone());
    let strided = g.chance(0.5);
    let mut wide = Array1::<f64>::from_elem(2 * n, 7.25);
    match (tol.tap(), strided) {
        (crate::taps::TapTol::SS(t), false) => t.ewt_set(ya.view(), w.view_mut()),
        (crate::taps::TapTol::SV(t), false) => t.ewt_set(ya.view(), w.view_mut()),
        (crate::taps::TapTol::SS(t), true) => t.ewt_set(ya.view(), wide.slice_mut(ndarray::s![0..n])),
        (crate::taps::TapTol::SV(t), true) => t.ewt_set(ya.view(), wide.slice_mut(ndarray::s![0..n])),
    }
    if strided {
        for i in 0..n {
            w[i] = wide[i];
        }
        if (n..2 * n).any(|i| wide[i] != 7.25) {
            return r.violation(case, "weights written outside the given view".into());
        }
    }
    for i in 0..n {
        let den = rtol * y[i].abs() + tol.at(i);
        let want = 1.0 / den;
        if den == 0.0 {
            if w[i].is_finite() && w[i] > 0.0 {
                return r.violation(case, format!("weight of component {} of {} is {:e} for zero tolerance", i, n, w[i]));
            }
            continue;
        }
        if !((w[i] - want).abs() <= 4.0 * EPS * want) {
            return r.violation(case, format!("weight {} of {}: {:e} for y={:e} rtol={:e} atol={:e}, expected {:e}", i, n, w[i], y[i], rtol, tol.at(i), want));
        }
        r.count(if ss { "scalar weights" } else { "per-component weights" });
    }
    // the same object again, with a different y
    let y2: Vec<f64> = (0..n).map(|_| val(&mut g)).collect();
    let t2 = tol.tap();
    let mut w2 = Array1::<f64>::zeros(n);
    let y2a = Array1::from_vec(y2.clone());
    t2.ewt_set(y2a.view(), w2.view_mut());
    for i in 0..n {
        let den = rtol * y2[i].abs() + tol.at(i);
        if den != 0.0 && !((w2[i] - 1.0 / den).abs() <= 4.0 * EPS / den) {
            return r.violation(case, format!("weight {} of {}: {:e} for y={:e} rtol={:e} atol={:e}", i, n, w2[i], y2[i], rtol, tol.at(i)));
        }
    }
    // norms
    let wide_range = g.chance(0.2);
    let x: Vec<f64> = (0..n).map(|_| if wide_range { g.sym() * 10f64.powf(60.0 * g.sym()) } else { g.sym() * 10f64.powf(3.0 * g.sym()) }).collect();
    let wv: Vec<f64> = (0..n).map(|_| if g.chance(0.1) { 0.0 } else { 10f64.powf(6.0 * g.unit()) }).collect();
    let id: Vec<bool> = match g.below(4) {
        0 => vec![true; n],
        1 => vec![false; n],
        _ => (0..n).map(|_| g.chance(0.6)).collect(),
    };
    let mut xm = x.clone();
    let hostile = g.chance(0.2);
    if hostile {
        for i in 0..n {
            if !id[i] && g.chance(0.5) {
                xm[i] = *g.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e308]);
                r.count("masked-out components that are not finite");
            }
        }
    }
    let rms = |v: &mut dyn Iterator<Item = f64>| -> f64 {
        // scaled sum: no overflow, error of a few ulps
        let v: Vec<f64> = v.collect();
        let m = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        if m == 0.0 {
            return 0.0;
        }
        let s: f64 = v.iter().map(|x| (x / m) * (x / m)).sum();
        m * (s / n as f64).sqrt()
    };
    let tolr = (n as f64 + 16.0) * EPS;
    let xa = Array1::from_vec(x.clone());
    let wa = Array1::from_vec(wv.clone());
    let got = xa.norm_wrms(&wa);
    let want = rms(&mut x.iter().zip(&wv).map(|(a, b)| a * b));
    if !((got - want).abs() <= tolr * want) && want < 1e150 && (want == 0.0 || want > 1e-150) {
        return r.violation(case, format!("weighted norm of {} components {:e}, expected {:e}", n, got, want));
    }
    r.count("norms");
    let xma = Array1::from_vec(xm.clone());
    let ida = Array1::from_vec(id.clone());
    let got = xma.norm_wrms_masked(&wa, &ida);
    let want = rms(&mut (0..n).map(|i| if id[i] { xm[i] * wv[i] } else { 0.0 }));
    if !((got - want).abs() <= tolr * want) && want < 1e150 && (want == 0.0 || want > 1e-150) {
        return r.violation(case, format!("masked norm of {} components ({} selected) {:e}, expected {:e}; x={:?} mask={:?}", n, id.iter().filter(|b| **b).count(), got, want, &xm[..n.min(8)], &id[..n.min(8)]));
    }
    r.count("masked norms");
    // components that are not finite, and huge and tiny ones, where they count
    if g.chance(0.15) {
        let kind = g.below(5);
        let all = g.chance(0.3);
        let mut xs = x.clone();
        let ws: Vec<f64> = wv.iter().map(|v| v.max(1.0)).collect();
        let mut hit = false;
        let one = g.below(n);
        for i in 0..n {
            if all || i == one || g.chance(0.1) {
                xs[i] = match kind {
                    0 => f64::NAN,
                    1 => {
                        if g.chance(0.5) {
                            f64::INFINITY
                        } else {
                            f64::NEG_INFINITY
                        }
                    }
                    2 => 1e300 * g.sym(),
                    3 => 1e-250 * g.sym(),
                    _ => *g.pick(&[f64::NAN, f64::INFINITY]),
                };
                hit |= id[i];
            }
        }
        let (xsa, wsa) = (Array1::from_vec(xs.clone()), Array1::from_vec(ws.clone()));
        for masked in [false, true] {
            let m = |i: usize| !masked || id[i];
            let got = if masked { xsa.norm_wrms_masked(&wsa, &ida) } else { xsa.norm_wrms(&wsa) };
            let nan = (0..n).any(|i| m(i) && xs[i].is_nan());
            let inf = (0..n).any(|i| m(i) && xs[i].is_infinite());
            let fin = rms(&mut (0..n).map(|i| if m(i) && xs[i].is_finite() { xs[i] * ws[i] } else { 0.0 }));
            let close = (got - fin).abs() <= 2.0 * tolr * fin;
            let ok = if nan {
                got.is_nan()
            } else if inf {
                got == f64::INFINITY
            } else if kind == 2 {
                // squares overflow unless the sum is scaled
                close || got == f64::INFINITY && fin > 1e150
            } else if fin < 1e-140 {
                // squares underflow unless the sum is scaled
                got >= 0.0 && got <= fin * (1.0 + 2.0 * tolr)
            } else {
                close
            };
            if !ok {
                return r.violation(case, format!("{} norm of {} components with NaN: {}, infinite: {}, otherwise {:e}: {:e}; x={:?} mask={:?}", if masked { "masked" } else { "weighted" }, n, nan, inf, fin, got, &xs[..n.min(8)], &id[..n.min(8)]));
            }
        }
        r.count(if hit { "norms of unusual components" } else { "norms of unusual components left out" });
        // and their weights
        if rtol > 0.0 {
            let ys = Array1::from_vec(xs.clone());
            let mut w3 = Array1::<f64>::zeros(n);
            tol.tap().ewt_set(ys.view(), w3.view_mut());
            for i in 0..n {
                let bad = if xs[i].is_nan() {
                    !w3[i].is_nan()
                } else if xs[i].is_infinite() {
                    w3[i] != 0.0
                } else {
                    false
                };
                if bad {
                    return r.violation(case, format!("weight {} of {}: {:e} for y={:e} rtol={:e} atol={:e}", i, n, w3[i], xs[i], rtol, tol.at(i)));
                }
            }
        }
    }
    r.distinct.insert(hash_f64s(y.iter().chain(&x).cloned()));
}

// ------------------------------------------------------------------------------------------ I12

/// The number reported as a field of an error.
pub fn field(e: &str, name: &str) -> Option<f64> {
    let key = format!("{}: ", name);
    let at = e.match_indices(&key).find(|(i, _)| *i == 0 || !e.as_bytes()[i - 1].is_ascii_alphanumeric())?.0 + key.len();
    let rest = &e[at..];
    let end = rest.find(|c: char| c == ',' || c == ' ' || c == '}').unwrap_or(rest.len());
    rest[..end].parse().ok()
}

fn i12(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I12", case);
    let d = if g.chance(0.3) { -1.0 } else { 1.0 };
    r.evaluations += 1;
    let kind = g.below(10);
    let mut s = scen(&mut g);
    let mut plan = Plan::default();
    let name: &'static str;
    let expect_err;
    let warm = if g.chance(0.4) { 0 } else { g.below(60) };
    let mut y0 = s.spec.initial();
    match kind {
        0 => {
            name = "output time equal to the start";
            expect_err = true;
        }
        1 => {
            name = "output time within rounding of the start";
            expect_err = false; // t0 = 0: no time is that close
        }
        2 => {
            name = "unreachable accuracy";
            plan.ewt_scale = Some((warm, 1e20));
            expect_err = true;
        }
        3 => {
            name = "singular Jacobian from a time on";
            s = Scen { spec: Rc::new(Spec { n: 2, kind: Kind::Sing { ts: g.unit() * 2.0, always: g.chance(0.3) }, roots: vec![] }), tol: gen_tol(&mut g, 2), tend: 5.0, dir: 1.0 };
            y0 = s.spec.initial();
            expect_err = true;
        }
        4 => {
            name = "nonlinear solve fails from some step on";
            plan.nls_fail_from = Some(warm);
            plan.nls_after = g.chance(0.5);
            expect_err = true;
        }
        5 => {
            name = "error test fails from some step on";
            plan.err_fail_from = Some(warm);
            expect_err = true;
        }
        6 => {
            name = "too many steps";
            s.tol = s.tol.scaled(0.01);
            if s.tol.rtol < 1e-9 {
                s.tol = s.tol.scaled(100.0);
            }
            expect_err = false;
        }
        7 => {
            name = "solution blows up";
            s = Scen { spec: Rc::new(Spec { n: 1, kind: Kind::Blow, roots: vec![] }), tol: gen_tol(&mut g, 1), tend: 2.0, dir: 1.0 };
            y0 = s.spec.initial();
            expect_err = true;
        }
        9 => {
            name = "illegal weights";
            if g.chance(0.4) {
                let mut atol = vec![1e-8, 1e-10, 1e-6];
                match g.below(4) {
                    0 => atol[1] = 0.0,
                    1 => atol[2] = 0.0,
                    2 => atol[g.below(3)] = -1e-3,
                    _ => atol[g.below(3)] = f64::NAN,
                }
                if atol[0] < 0.0 {
                    atol[0] = -1.0;
                }
                s = Scen { spec: Rc::new(Spec { n: 3, kind: Kind::Roberts, roots: vec![] }), tol: Tol::sv(1e-4, atol), tend: 1.0, dir: 1.0 };
                y0 = s.spec.initial();
            } else {
                plan.ewt_scale = Some((warm, [0.0, -1.0, f64::INFINITY, f64::NAN][g.below(4)]));
                if g.chance(0.6) {
                    plan.ewt_comp = Some(g.below(s.spec.n));
                }
            }
            expect_err = true;
        }
        _ => {
            name = "linear setup reports a singular matrix now and then";
            for _ in 0..1 + g.below(6) {
                let at = g.below(60);
                for k in at..at + 1 + g.below(4) {
                    plan.ls_fail.push(k);
                }
            }
            expect_err = false;
        }
    }
    r.count(name);
    let d = if kind <= 1 { d } else { s.dir };
    let mut sim = Sim::with(s.spec.clone(), s.tol.clone(), plan, y0.0, y0.1);
    let n = s.spec.n;
    macro_rules! bad { ($($a:tt)*) => {{ fail(r, case, &s, format!("{}: {}", name, format!($($a)*))); return; }} }
    if kind <= 1 {
        let t = if kind == 0 { 0.0 } else { f64::MIN_POSITIVE * g.unit() * d };
        for one in [false, true] {
            let c = sim.solve(t, one);
            match &c.out {
                Out::Err(_) => {
                    if kind == 0 && !c.evs.iter().all(|e| matches!(e, Ev::Ewt { .. })) || c.after.nst != 0 {
                        bad!("work was done before the request was rejected");
                    }
                    r.count("rejected requests");
                }
                Out::Panic(p) => bad!("panic {}", p),
                o if kind == 0 => bad!("accepted: {:?}", o),
                _ => {}
            }
            if kind == 0 && t == 0.0 {
                if c.after.y != sim.y0 || c.after.yp != sim.yp0 {
                    bad!("after the rejected request y={:?} y'={:?}", c.after.y, c.after.yp);
                }
            }
        }
        if kind == 0 {
            // and the object is still usable
            let c = sim.solve(s.tend, true);
            if !c.out.ok() {
                bad!("a legal request after the rejected one gives {:?}", c.out);
            }
            let a = attempts(&c.evs);
            for i in 0..n {
                let h = a[0].t;
                let want = sim.y0[i] + h * sim.yp0[i];
                if (a[0].ypred[i] - want).abs() > 1e-12 * (sim.y0[i].abs() + (h * sim.yp0[i]).abs()) {
                    bad!("after the rejected request the first prediction is {:e}, expected {:e}", a[0].ypred[i], want);
                }
            }
        }
        r.distinct.insert(case);
        return;
    }
    // run to the end, bounded
    let mut got_err = None;
    let mut budget = 0u64;
    let mut last_y: Option<(f64, Vec<f64>)> = None;
    let mut last_nst = 0;
    let mut conts = 0;
    for k in 0..200 {
        let one = g.chance(0.3) && kind != 6;
        let tout = if one || kind == 6 { s.tend } else { sim.ida.get_current_time() + s.tend * g.unit() };
        if tout == sim.ida.get_current_time() {
            continue;
        }
        let c = sim.solve(tout, one);
        let at = attempts(&c.evs);
        let steps = (c.after.nst - c.before.nst) as u64;
        budget += c.evs.len() as u64;
        if let Out::Panic(p) = &c.out {
            bad!("panic '{}' in call {} from t={:e} after {} steps", p, k, c.before.tn, c.after.nst);
        }
        // bounded work: at most 500 steps per call, at most 20 attempts per step, at most 4 iterations twice per attempt
        if steps > 500 {
            bad!("{} steps in one call", steps);
        }
        if at.len() as u64 > 20 * (steps + 1) {
            bad!("{} attempts for {} steps", at.len(), steps);
        }
        if (c.evs.len() as u64) > 60 * (at.len() as u64 + 2) + 400 * (steps + 1) * s.spec.roots.len() as u64 {
            bad!("{} callbacks for {} attempts", c.evs.len(), at.len());
        }
        // per step
        let mut run = 0;
        for w in at.windows(2) {
            run = if (w[1].t - w[0].t) * d > 0.0 || (w[1].t - w[0].t).abs() <= 1e-12 * w[0].t.abs() { 0 } else { run + 1 };
            if run >= 20 {
                bad!("{} attempts at one step: {:?}", run + 1, at.iter().map(|a| (a.t, a.err.clone(), a.injected)).collect::<Vec<_>>());
            }
        }
        match &c.out {
            Out::Err(e) => {
                r.count("error returns");
                let mx = e.contains("mxstep");
                if mx && steps != 500 {
                    bad!("step limit reported after {} steps", steps);
                }
                if c.tret != c.after.tn && !(kind == 9 && c.after.nst == 0) {
                    bad!("error {} reported with tret={:e}, the internal time is {:e}", e, c.tret, c.after.tn);
                }
                // the last reached time is the end of the last accepted step
                let mut acc = c.before.tn;
                for (i, a) in at.iter().enumerate() {
                    if i + 1 < at.len() && (at[i + 1].t - a.t) * d > 0.0 {
                        acc = a.t;
                    }
                }
                if mx || e.contains("TooMuch") || kind == 9 {
                    // reported between steps
                    acc = at.last().map_or(acc, |a| a.t);
                }
                if (c.after.tn - acc).abs() > 1e-12 * (acc.abs() + c.after.hused.abs()) {
                    bad!("after error {} the internal time is {:e}, the last accepted step ended at {:e}", e, c.after.tn, acc);
                }
                if kind == 9 {
                    // no use is made of such weights
                    let legal = |e: &Ev| !matches!(e, Ev::Ewt { w, .. } if w.iter().any(|x| !(*x > 0.0 && x.is_finite())));
                    match c.evs.iter().position(|e| !legal(e)) {
                        Some(i) if c.evs[i..].iter().any(|e| matches!(e, Ev::Res { .. } | Ev::Jac { .. })) => bad!("after the illegal weights of event {} the call goes on: {:?}", i, &c.evs[i..].iter().map(|e| format!("{:?}", e)).map(|e| e[..e.len().min(80)].to_string()).take(4).collect::<Vec<_>>()),
                        Some(_) => r.count(if c.before.nst == 0 && c.after.nst == 0 { "illegal initial weights reported" } else { "illegal weights reported later" }),
                        None => {}
                    }
                }
                if e.contains("TooMuchAccuracy") && field(e, "t") != Some(c.after.tn) {
                    bad!("unreachable accuracy at t={:e} reported as {}", c.after.tn, e);
                }
                if kind == 2 && e.contains("TooMuchAccuracy") {
                    // the advertised factor: ten units of roundoff of the solution, in the norm of the weights
                    let w = c.evs.iter().rev().find_map(|e| if let Ev::Ewt { w, .. } = e { Some(w.clone()) } else { None });
                    let f = sim.ida.get_tol_scale_factor();
                    if let Some(w) = w {
                        let y = if c.after.nst == 0 { sim.y0.clone() } else { c.after.y.clone() };
                        let want = 10.0 * EPS * wrms(&y, &w);
                        if (f - want).abs() > 1e-10 * want {
                            bad!("the advertised factor for the tolerances is {:e}, ten roundoffs of the solution are {:e}", f, want);
                        }
                        r.count("tolerance factors checked");
                        if c.after.nst > 0 {
                            // tolerances enlarged by it are accepted
                            if let Some((_, x)) = sim.plan.ewt_scale.as_mut() {
                                *x /= f;
                            }
                            let tout = s.tend * 10.0;
                            let c2 = sim.solve(tout, true);
                            if matches!(&c2.out, Out::Err(e2) if e2.contains("TooMuch")) && c2.after.nst == c2.before.nst {
                                bad!("tolerances enlarged by the advertised factor {:e} are rejected again: {:?}", f, c2.out);
                            }
                            r.count("continued with enlarged tolerances");
                            return;
                        }
                    }
                }
                if kind != 7 && c.after.y.iter().chain(&c.after.yp).any(|v| !v.is_finite()) {
                    bad!("non-finite y or y' after error {}", e);
                }
                // still queryable
                if c.after.nst > 0 {
                    match sim.at(c.after.tn) {
                        Ok((y, _)) => {
                            if let Some((t, ly)) = &last_y {
                                if *t == c.after.tn && last_nst == c.after.nst {
                                    for i in 0..n {
                                        if (y[i] - ly[i]).abs() > 1e-9 * (ly[i].abs() + 1e-30) + 1e-12 * ly.iter().map(|v| v.abs()).fold(0.0, f64::max) {
                                            bad!("after error {} y[{}] at t={:e} is {:e}, before the failed attempts it was {:e}", e, i, t, y[i], ly[i]);
                                        }
                                    }
                                    r.count("solution unchanged by failed attempts");
                                }
                            }
                        }
                        Err(x) => bad!("after error {} the solution at the internal time: {}", e, x),
                    }
                    for k in 0..=c.after.kused {
                        if let Err(x) = sim.dky(c.after.tn, k) {
                            bad!("after error {} derivative {} at the internal time: {}", e, k, x);
                        }
                    }
                } else {
                    match Ok::<_, String>((c.after.y.clone(), ())) {
                        Ok((y, _)) => {
                            for i in 0..n {
                                if y[i] != sim.y0[i] {
                                    bad!("after error {} in the first step y[{}] at the start is {:e}, the initial value is {:e}", e, i, y[i], sim.y0[i]);
                                }
                            }
                            r.count("failed first steps");
                        }
                        Err(x) if x.starts_with("error") => {}
                        Err(x) => bad!("after error {} the solution at the start: {}", e, x),
                    }
                }
                if mx {
                    conts += 1;
                    r.count("step limit reached, continued");
                    if conts > 10 {
                        break;
                    }
                    continue;
                }
                got_err = Some(e.clone());
                break;
            }
            _ => {
                if conts > 0 && (steps > 0) {
                    r.count("continued to the output time after a step limit");
                }
            }
        }
        last_nst = c.after.nst;
        last_y = sim.at(c.after.tn).ok().map(|(y, _)| (c.after.tn, y));
        if (c.tret - s.tend) * d >= 0.0 && !(kind == 4 || kind == 5 || kind == 2 || kind == 9) {
            break;
        }
        if kind == 7 && c.after.tn > 1.01 {
            bad!("integrated past the blow-up to t={:e}", c.after.tn);
        }
    }
    let _ = budget;
    if expect_err && got_err.is_none() && conts <= 10 {
        bad!("no error was reported, the integration is at t={:e} after {} steps", sim.ida.get_current_time(), sim.ida.get_num_steps());
    }
    if let Some(e) = &got_err {
        if !expect_err {
            // an occasional setup failure may be unlucky enough to exhaust the retries only if 10 in a row
            let long = kind == 8 && sim.plan.ls_fail.len() >= 10;
            if !(long || kind == 6 && e.contains("TooMuch")) {
                bad!("unexpected error {} at t={:e} after {} steps", e, sim.ida.get_current_time(), sim.ida.get_num_steps());
            }
        }
        let want: &[&str] = match kind {
            2 => &["TooMuchAccuracy"],
            9 => &["IllegalInput", "BadErrorWeight"],
            3 | 4 => &["ConvergenceFail"],
            5 => &["ERR_FAIL", "TestFail"],
            _ => &[""],
        };
        if !want.iter().any(|w| e.contains(w)) {
            bad!("reported as {}", e);
        }
        r.count("hopeless runs ended by an error");
    }
    r.distinct.insert(hash_f64s([sim.ida.get_current_time(), case as f64].into_iter()));
}

// ------------------------------------------------------------------------------------------ I13

fn i13(cfg: &Cfg, case: u64, r: &mut Report) {
    #[cfg(feature = "hooks")]
    if case % 3 == 2 {
        // when the iteration is allowed to stop, against the reference of the convergence test
        lockstep(cfg, "I13", case, r);
        return;
    }
    let mut g = Rng::new(cfg.seed, "I13", case);
    let s = scen(&mut g);
    let plan = if g.chance(0.2) { Plan { nls_fail: (0..3).map(|_| g.below(100)).collect(), ..Plan::default() } } else { Plan::default() };
    let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), plan);
    r.evaluations += 1;
    let n = s.spec.n;
    let mut sig = vec![];
    for k in 0..(50 + g.below(250)) {
        let c = sim.solve(s.tend, true);
        macro_rules! bad { ($($a:tt)*) => {{ fail(r, case, &s, format!("step {} to t={:e} (order {}, h={:e}): {}", k, c.after.tn, c.after.kused, c.after.hused, format!($($a)*))); return; }} }
        if !c.out.ok() {
            break;
        }
        let at = attempts(&c.evs);
        let a = at.last().unwrap();
        let (y, yp) = (&c.after.y, &c.after.yp);
        let t = c.after.tn;
        let mut f = vec![0.0; n];
        s.spec.res(t, y, yp, &mut f);
        let cj = cj_of(c.after.kused, c.after.hused);
        let mut m = vec![vec![0.0; n]; n];
        s.spec.jac(t, cj, y, yp, &mut m);
        let dx = match gauss(&m, &f) {
            Some(x) => x,
            None => continue,
        };
        let e = wrms(&dx, &a.w);
        // y' is the corrector's derivative: y'pred + cj (y - ypred)
        for i in 0..n {
            let want = a.yppred[i] + cj * a.ee[i];
            if (yp[i] - want).abs() > 1e-9 * (a.yppred[i].abs() + (cj * a.ee[i]).abs()) + 1e-12 * (cj * y[i]).abs() {
                bad!("y'[{}] = {:e}, the corrector gives {:e}", i, yp[i], want);
            }
        }
        let lin = match &s.spec.kind {
            Kind::Manu { e, .. } => e.iter().all(|v| *v == 0.0),
            _ => false,
        };
        if std::env::var("VERIF_CAL").is_ok() {
            println!("CAL {:e} {} {} {} setup={} {:?}", e, case, k, lin, at.last().unwrap().call_lsetup, if let Kind::Manu{..} = &s.spec.kind {0} else {1});
        }
        let floor = 64.0 * EPS * y.iter().zip(&a.w).map(|(y, w)| (y * w).abs()).fold(0.0, f64::max);
        // With Jacobian data from this step the correction is tiny. With older data the convergence test estimates
        // the rate, which for systems that are not linear may come from an earlier step: there the share of
        // badly corrected steps over the whole run is judged (see `overall`).
        let lim = if a.call_lsetup { 1.0 } else if lin { 60.0 } else { f64::INFINITY };
        if e > lim + floor {
            bad!("the residual {:?} corresponds to a correction of {:e} in the error-weight norm", f, e);
        }
        if !a.call_lsetup {
            r.count(if lin { "linear, older Jacobian" } else { "nonlinear, older Jacobian" });
            if e > 0.33 + floor {
                r.count(if lin { "linear, older Jacobian, correction above 0.33" } else { "nonlinear, older Jacobian, correction above 0.33" });
            }
            if e > 2.0 + floor {
                r.count(if lin { "linear, older Jacobian, correction above 2" } else { "nonlinear, older Jacobian, correction above 2" });
            }
        } else {
            r.count("Jacobian of the same step");
        }
        r.count("accepted steps checked");
        if e > 1e-3 {
            r.count("corrections above 0.001");
        }
        sig.push(e);
        if (c.after.tn - 10.0 * s.tend) * s.dir > 0.0 {
            break;
        }
    }
    if s.spec.differential().iter().any(|d| !d) {
        r.count("DAEs");
    }
    r.distinct.insert(hash_f64s(sig.into_iter()));
}

pub fn gauss(a: &[Vec<f64>], b: &[f64]) -> Option<Vec<f64>> {
    let n = b.len();
    let mut m: Vec<Vec<f64>> = a.to_vec();
    let mut x = b.to_vec();
    for k in 0..n {
        let p = (k..n).max_by(|i, j| m[*i][k].abs().partial_cmp(&m[*j][k].abs()).unwrap_or(std::cmp::Ordering::Equal))?;
        if m[p][k] == 0.0 || !m[p][k].is_finite() {
            return None;
        }
        m.swap(p, k);
        x.swap(p, k);
        for i in k + 1..n {
            let f = m[i][k] / m[k][k];
            for j in k..n {
                let v = m[k][j];
                m[i][j] -= f * v;
            }
            x[i] -= f * x[k];
        }
    }
    for k in (0..n).rev() {
        for j in k + 1..n {
            let v = x[j];
            x[k] -= m[k][j] * v;
        }
        x[k] /= m[k][k];
    }
    Some(x)
}

// ------------------------------------------------------------------------------------------ with state access

#[cfg(feature = "hooks")]
fn st(sim: &Sim) -> St {
    let s = sim.ida.vh_snap();
    St { phi: s.phi, psi: s.psi, alpha: s.alpha, beta: s.beta, sigma: s.sigma, gamma: s.gamma, kk: s.kk, kused: s.kused, phase: s.phase, ns: s.ns, hh: s.hh, hused: s.hused, tn: s.tn, cj: s.cj, cjold: s.cjold, cjratio: s.cjratio, ss: s.ss, nst: s.nst, tstop: s.tstop, ewt: s.ewt }
}

#[cfg(feature = "hooks")]
fn lockstep(cfg: &Cfg, prop: &'static str, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, prop, case);
    let mut s = scen(&mut g);
    if g.chance(0.2) {
        let f = s.tend;
        add_roots(&mut g, &mut s, f);
    }
    r.evaluations += 1;
    let faults = prop == "I06" || g.chance(0.3);
    let plan = if faults { rand_plan(&mut g) } else { Plan::default() };
    let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), plan);
    let mut env = Env::default();
    // non-default settings
    if g.chance(0.15) {
        env.maxord = 1 + g.below(4);
        sim.ida.vh_set_maxord(env.maxord);
        r.count("runs with a lower maximum order");
    }
    if g.chance(0.15) {
        let hmax = s.tend.abs() * 10f64.powf(-3.0 * g.unit());
        env.hmax_inv = 1.0 / hmax;
        sim.ida.vh_set_hmax(hmax);
        r.count("runs with a maximum step");
    }
    if g.chance(0.1) {
        env.hin = s.tend * 10f64.powf(-5.0 * g.unit() - 1.0);
        sim.ida.vh_set_hin(env.hin);
    }
    if g.chance(0.2) {
        let id = s.spec.differential();
        if id.iter().any(|b| *b) {
            sim.ida.vh_set_suppressalg(&id);
            env.mask = Some(id);
            r.count("runs with algebraic components left out of the error test");
        }
    }
    let mut seen = Seen::default();
    let mut sig = vec![];
    let steps = 60 + g.below(if cfg.thorough() { 600 } else { 300 });
    for k in 0..steps {
        if g.chance(0.02) {
            let h = sim.ida.get_current_setp();
            sim.ida.vh_set_tstop(Some(sim.ida.get_current_time() + h * (0.1 + 4.0 * g.unit())));
        }
        let mut m = st(&sim);
        let c = sim.solve(s.tend, true);
        if let Out::Panic(p) = &c.out {
            // judged by I12
            if prop == "I12" {
                return fail(r, case, &s, format!("panic {}", p));
            }
            r.count("runs ended by a panic");
            break;
        }
        let ok = match model::follow(&mut m, &c, &env, &mut seen) {
            Ok(b) => b,
            Err(b) => {
                if b.0.contains(&prop) {
                    return fail(r, case, &s, format!("step {}: {}", k, b.1));
                }
                r.count("mismatches of another property");
                break;
            }
        };
        if ok {
            let after = st(&sim);
            if let Err(Bad(tags, t)) = model::compare(&m, &after, &env) {
                if tags.contains(&prop) {
                    return fail(r, case, &s, format!("step {}: {}", k, t));
                }
                r.count("mismatches of another property");
                break;
            }
            r.count("states compared");
        }
        // a failed first step must not have changed the initial values
        sig.push(c.after.tn);
        if !c.out.ok() {
            break;
        }
        if (c.after.tn - 100.0 * s.tend) * s.dir > 0.0 {
            break;
        }
    }
    for (k, v) in [
        ("steps followed", seen.steps),
        ("retries after a failed error test", seen.retries_err),
        ("retries after a failed nonlinear solve", seen.retries_conv),
        ("retries of the first step", seen.first_step_retries),
        ("decisions too close to call", seen.near),
        ("runs ended at a failure limit", seen.ended),
        ("order raised", seen.raised),
        ("order lowered", seen.lowered),
        ("convergence tests", seen.ctests),
        ("corrections scaled for a changed cj", seen.scaled),
        ("setup decisions", seen.lsetup_rule),
        ("steps ending at a stop time", seen.stops),
        ("times set back to the stop time", seen.clamped),
        ("order 5", seen.orders[5]),
        ("order 1", seen.orders[1]),
        ("order 3", seen.orders[3]),
    ] {
        if v > 0 {
            r.add(k, v);
        }
    }
    r.distinct.insert(hash_f64s(sig.into_iter()));
}

/// First-step failures seen from outside: the retry must start from the user's initial values.
fn i06_public(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I06p", case);
    let s = scen(&mut g);
    r.evaluations += 1;
    let n = s.spec.n;
    let mut plan = Plan { nls_after: g.chance(0.5), ..Plan::default() };
    let many = g.chance(0.4);
    let m = 1 + if many { g.below(40) } else { g.below(9) };
    let only = if many && g.chance(0.7) { Some(g.below(3)) } else { None };
    for k in 0..m {
        let what = only.unwrap_or(if g.chance(0.5) { 0 } else { 1 + g.below(2) });
        match what {
            0 => plan.nls_fail.push(k),
            1 => plan.err_fail.push(k),
            _ => plan.ls_fail.push(k),
        }
    }
    if g.chance(0.1) {
        // an accuracy that is out of reach
        plan.ewt_scale = Some((0, 1e18));
    }
    let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), plan);
    macro_rules! bad { ($($a:tt)*) => {{ fail(r, case, &s, format!("first step with {} failures: {}", m, format!($($a)*))); return; }} }
    let mut sig = vec![];
    for call in 0..5 {
        let tout = if call == 0 { s.tend } else { s.tend * 10f64.powf(0.5 - 2.0 * g.unit()) };
        let c = sim.solve(tout, true);
        if let Out::Panic(_) = &c.out {
            r.count("runs ended by a panic");
            break;
        }
        if call > 0 && c.out.ok() {
            r.count("integrations begun by a later request");
        }
        let at = attempts(&c.evs);
        for (q, a) in at.iter().enumerate() {
            for i in 0..n {
                let want = sim.y0[i] + a.t * sim.yp0[i];
                if (a.ypred[i] - want).abs() > 1e-11 * (sim.y0[i].abs() + (a.t * sim.yp0[i]).abs()) {
                    bad!("request {}, attempt {} at t={:e} predicts y[{}] = {:e}, the initial values give {:e}", call + 1, q + 1, a.t, i, a.ypred[i], want);
                }
                if (a.yppred[i] - sim.yp0[i]).abs() > 1e-11 * sim.yp0[i].abs() {
                    bad!("request {}, attempt {} at t={:e} predicts y'[{}] = {:e}, the initial value is {:e}", call + 1, q + 1, a.t, i, a.yppred[i], sim.yp0[i]);
                }
            }
            if call > 0 {
                r.count("attempts by a later request");
            }
            if q > 0 {
                r.count("first-step retries seen from outside");
                if !(a.t.abs() <= 0.9 * at[q - 1].t.abs() * (1.0 + 1e-9)) {
                    bad!("attempt {} at t={:e} after one at {:e}", q + 1, a.t, at[q - 1].t);
                }
                if at[q - 1].err.is_some() && (a.t - 0.25 * at[q - 1].t).abs() > 1e-9 * a.t.abs() {
                    bad!("attempt {} at t={:e} after a failed nonlinear solve at {:e}: expected a quarter", q + 1, a.t, at[q - 1].t);
                }
            }
            sig.push(a.t);
        }
        let recoverable_only = at.iter().all(|a| a.err.as_ref().map_or(true, |e| e.contains("Recover")));
        if !c.out.ok() && !at.is_empty() && at.len() < 10 && recoverable_only {
            bad!("gave up with {:?} after {} attempts", c.out, at.len());
        }
        if c.after.nst > 0 {
            break;
        }
        // no step so far: the solution is still the initial one
        r.count("requests that ended before the first step");
        if let Ok((y, yp)) = sim.at(0.0) {
            for i in 0..n {
                if (y[i] - sim.y0[i]).abs() > 1e-11 * sim.y0[i].abs() || (yp[i] - sim.yp0[i]).abs() > 1e-11 * sim.yp0[i].abs() {
                    bad!("after {:?} at the start, y[{}] = {:e} and y' = {:e}; initially {:e} and {:e}", c.out, i, y[i], yp[i], sim.y0[i], sim.yp0[i]);
                }
            }
        }
    }
    r.distinct.insert(hash_f64s(sig.into_iter()));
}

fn i06(cfg: &Cfg, case: u64, r: &mut Report) {
    if case % 3 == 0 {
        return i06_public(cfg, case, r);
    }
    #[cfg(feature = "hooks")]
    lockstep(cfg, "I06", case, r);
    #[cfg(not(feature = "hooks"))]
    i06_public(cfg, case, r);
}
fn i14(cfg: &Cfg, case: u64, r: &mut Report) {
    if case % 64 == 0 {
        return roberts(case, r);
    }
    #[cfg(feature = "hooks")]
    lockstep(cfg, "I14", case, r);
    #[cfg(not(feature = "hooks"))]
    roberts(case, r);
}

/// The Robertson example against the published output of the C code.
fn roberts(case: u64, r: &mut Report) {
    r.evaluations += 1;
    let roots = vec![RootFn::Y { c: 0, v: 1e-4, s: 1.0 }, RootFn::Y { c: 2, v: 0.01, s: 1.0 }];
    let s = Scen { spec: Rc::new(Spec { n: 3, kind: Kind::Roberts, roots }), tol: Tol::sv(1e-4, vec![1e-8, 1e-6, 1e-6]), tend: 4e10, dir: 1.0 };
    let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), Plan::default());
    let table = [
        (4e-1, [9.8517e-01, 3.3864e-05, 1.4796e-02]),
        (4e0, [9.0553e-01, 2.2403e-05, 9.4452e-02]),
        (4e1, [7.1579e-01, 9.1850e-06, 2.8420e-01]),
        (4e2, [4.5044e-01, 3.2218e-06, 5.4956e-01]),
        (4e3, [1.8320e-01, 8.9444e-07, 8.1680e-01]),
        (4e4, [3.8992e-02, 1.6221e-07, 9.6101e-01]),
        (4e5, [4.9369e-03, 1.9842e-08, 9.9506e-01]),
        (4e6, [5.1674e-04, 2.0684e-09, 9.9948e-01]),
        (4e7, [5.2009e-05, 2.0805e-10, 9.9995e-01]),
        (4e8, [5.2012e-06, 2.0805e-11, 9.9999e-01]),
        (4e9, [5.1850e-07, 2.0740e-12, 1.0]),
        (4e10, [4.8641e-08, 1.9456e-13, 1.0]),
    ];
    let mut k = 0;
    let mut roots_at = vec![];
    while k < table.len() {
        let c = sim.solve(table[k].0, false);
        match c.out {
            Out::Root => roots_at.push(c.tret),
            Out::Success => {
                for i in 0..3 {
                    let want = table[k].1[i];
                    if (c.after.y[i] - want).abs() > 0.02 * want + if k >= 9 { 0.1 * want } else { 0.0 } {
                        return fail(r, case, &s, format!("Robertson at t={:e}: y[{}]={:e}, the C code prints {:e}", table[k].0, i, c.after.y[i], want));
                    }
                }
                k += 1;
            }
            o => return fail(r, case, &s, format!("Robertson: {:?} at {:e}", o, c.tret)),
        }
        if roots_at.len() > 4 {
            break;
        }
    }
    if roots_at.len() != 2 || (roots_at[0] - 0.26391).abs() > 2e-3 || (roots_at[1] / 2.0787e7 - 1.0).abs() > 0.02 {
        return fail(r, case, &s, format!("Robertson roots at {:?}, the C code finds 2.6391e-01 and 2.0788e+07", roots_at));
    }
    let p = sim.public();
    for (name, got, want) in [("nst", p.nst, 362usize), ("nre", p.nre, 537), ("nje", p.nje, 60), ("nni", p.nni, 537), ("netf", p.netf, 15), ("nge", p.nge, 404)] {
        let d = (got as f64 - want as f64).abs();
        if d > 0.06 * want as f64 + 3.0 {
            return fail(r, case, &s, format!("Robertson {} = {}, the C code reports {}", name, got, want));
        }
    }
    if p.ncfn > 2 {
        return fail(r, case, &s, format!("Robertson: {} convergence failures, the C code reports none", p.ncfn));
    }
    r.count("Robertson runs");
    r.distinct.insert(1);
}

#[cfg(feature = "hooks")]
fn i05(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I05", case);
    let mut s = scen(&mut g);
    if g.chance(0.2) {
        let f = s.tend;
        add_roots(&mut g, &mut s, f);
    }
    let plan = if g.chance(0.2) { rand_plan(&mut g) } else { Plan::default() };
    let mut sim = Sim::new(s.spec.clone(), s.tol.clone(), plan);
    r.evaluations += 1;
    let d = s.dir;
    let mut stop: Option<f64> = None;
    let mut sig = vec![];
    let mut tlast = 0.0;
    let mut treq = 0.0f64;
    let mut prev_root = false;
    for k in 0..150 {
        let tn = sim.ida.get_current_time();
        let h = if k == 0 { s.tend * 1e-3 } else { sim.ida.get_current_setp() };
        let mut behind = false;
        if stop.is_none() && g.chance(0.4) {
            let t = match g.below(8) {
                0 => tn + h * 1e-3 * g.unit(),
                1 => tn + h,
                2 => tn + h * (1.0 + 1e-10 * g.sym()),
                3 => tn + h * (1.0 + 0.5 * g.unit()),
                4 if k > 0 => tn,
                5 if k > 0 => {
                    let t = tn - sim.ida.get_last_step() * (0.1 + 3.0 * g.unit());
                    behind = t != tn;
                    t
                }
                _ => tn + h * 6.0 * g.unit(),
            };
            if k == 0 && t == 0.0 {
                continue;
            }
            sim.ida.vh_set_tstop(Some(t));
            stop = Some(t);
        }
        let one = g.chance(0.5);
        let base = if (treq - tlast) * d > 0.0 { treq } else { tlast };
        let tout = if one {
            tn + s.tend
        } else if let (Some(ts), true) = (stop, g.chance(0.15)) {
            if (ts - base) * d > 0.0 {
                ts
            } else {
                base + h
            }
        } else {
            base + h * 8.0 * g.unit() + 1e-9 * h
        };
        if tout == tlast || tout == 0.0 {
            if stop.is_some() && behind {
                sim.ida.vh_set_tstop(None);
                stop = None;
            }
            continue;
        }
        let c = sim.solve(tout, one);
        if !one {
            treq = tout;
        }
        let tag = format!("call {} ({} to {:e}, stop {:?}) from internal time {:e} (h={:e}): {:?} at {:e}", k, if one { "one step" } else { "normal" }, tout, stop, c.before.tn, c.before.hh, c.out, c.tret);
        macro_rules! bad { ($($a:tt)*) => {{ fail(r, case, &s, format!("{}: {}", tag, format!($($a)*))); return; }} }
        if let Out::Panic(_) = &c.out {
            r.count("runs ended by a panic");
            break;
        }
        let pending_root = c.out == Out::Root;
        // the mark "a root was returned" outlives a root exactly at the internal time
        let after_root = prev_root;
        prev_root |= pending_root;
        if behind {
            match &c.out {
                Out::Err(e) if e.contains("Stop") || e.contains("tstop") => {
                    if e.contains("BadStopTime") && (field(e, "tstop") != stop || field(e, "t") != Some(c.before.tn)) {
                        bad!("a stop time behind is reported with other numbers");
                    }
                    r.count("stop times behind rejected");
                }
                _ if pending_root => {}
                // the root check comes before the stop time is looked at
                Out::Err(e) if e.contains("CloseRoots") => break,
                // after an intervening root the pending y(tn) is returned first, before the stop time is looked at
                Out::Success if one && after_root && (c.before.tn - tlast) * d > 0.0 && c.after.nst == c.before.nst && c.tret == c.after.tn => {
                    r.count("pending points returned before a stop time behind is rejected");
                }
                // an intervening root or pending point may be returned first, in which case no step may be taken
                _ => bad!("a stop time behind the internal time was not rejected"),
            }
            sim.ida.vh_set_tstop(None);
            stop = None;
            continue;
        }
        if let Some(ts) = stop {
            // nothing beyond
            for e in &c.evs {
                let t = match e {
                    Ev::Res { t, .. } | Ev::Jac { t, .. } => *t,
                    _ => continue,
                };
                let fuzz = if e_is_jac(e) { 1.0 } else { 0.0 };
                let _ = fuzz;
                if matches!(e, Ev::Res { .. }) && (t - ts) * d > 0.0 {
                    bad!("residual evaluated at {:e}, beyond the stop time by {:e}", t, t - ts);
                }
                r.count("residual times checked against a stop time");
            }
            if (c.after.tn - ts) * d > 0.0 {
                bad!("internal time {:e} beyond the stop time", c.after.tn);
            }
            if c.out.ok() && (c.tret - ts) * d > 0.0 && c.before.tn == c.after.tn && false {
                bad!("returned beyond the stop time");
            }
        }
        let now = sim.ida.vh_snap().tstop;
        match (&c.out, stop) {
            (Out::TStop, None) => bad!("stop status without a stop time"),
            (Out::TStop, Some(ts)) => {
                if c.tret != ts {
                    bad!("stop reported at {:e}", c.tret);
                }
                if now.is_some() {
                    bad!("the stop time is still set after it was reached");
                }
                if (c.after.tn - ts).abs() > 200.0 * EPS * (c.after.tn.abs() + c.after.hh.abs()) {
                    bad!("stopped while the internal time is {:e}", c.after.tn);
                }
                let (y, yp) = (c.after.y.clone(), c.after.yp.clone());
                match sim.at(ts) {
                    Ok((y2, yp2)) => {
                        for i in 0..s.spec.n {
                            if (y[i] - y2[i]).abs() > 1e-9 * (y2[i].abs() + 1e-300) || (yp[i] - yp2[i]).abs() > 1e-9 * yp2[i].abs() + 1e-10 * (y2[i] / c.after.hused).abs() {
                                bad!("y[{}] y'[{}] returned {:e} {:e}, at the stop time they are {:e} {:e}", i, i, y[i], yp[i], y2[i], yp2[i]);
                            }
                        }
                    }
                    Err(e) => bad!("no solution at the stop time: {}", e),
                }
                stop = None;
                r.count(if one { "stops in one-step mode" } else { "stops in normal mode" });
                if c.after.nst == c.before.nst {
                    r.count("stops without a step");
                }
            }
            (Out::Success, Some(ts)) => {
                if now != Some(ts) {
                    bad!("the stop time was changed to {:?}", now);
                }
                if !one && (tout - ts) * d > 0.0 && (c.tret - ts) * d > 0.0 {
                    bad!("an output time beyond the stop time was reached");
                }
                // in one-step mode a step that ends at the stop time must be reported as a stop
                let tr = 100.0 * EPS * (c.after.tn.abs() + c.after.hh.abs());
                if one && c.after.nst > c.before.nst && (c.after.tn - ts).abs() <= 0.5 * tr {
                    bad!("a step ended at the stop time {:e} without being reported", c.after.tn);
                }
                if c.after.nst > c.before.nst {
                    r.count("steps with a stop time pending");
                }
            }
            (Out::Err(e), _) => {
                if !(e.contains("mxstep") || e.contains("CloseRoots") || e.contains("ConvergenceFail") || e.contains("ERR_FAIL") || e.contains("TestFail")) {
                    bad!("unexpected error");
                }
                break;
            }
            _ => {}
        }
        tlast = c.tret;
        sig.push(c.tret);
        if (tlast - 3.0 * s.tend) * d > 0.0 {
            break;
        }
    }
    r.distinct.insert(hash_f64s(sig.into_iter()));
}
#[cfg(feature = "hooks")]
fn e_is_jac(e: &Ev) -> bool {
    matches!(e, Ev::Jac { .. })
}
#[cfg(not(feature = "hooks"))]
fn i05(_: &Cfg, _: u64, _: &mut Report) {}

/// Where private state cannot be read, what is judged from outside only need not have reached what needs it.
#[cfg(not(feature = "hooks"))]
pub fn outside(p: &str, mut m: Mon) -> Mon {
    m.assumptions = &["stand-ins for ndarray and failure behave as those crates do", "initial time is 0, as the interface fixes it", "REDUCED: the private state of this tree could not be read, so only what is visible from outside was judged"];
    match p {
        "I06" => m.required = &["first-step retries seen from outside", "attempts by a later request"],
        "I14" => {
            m.required = &["Robertson runs"];
            m.quick = 64;
            m.thorough = 64;
        }
        _ => {}
    }
    m
}
#[cfg(feature = "hooks")]
pub fn outside(_: &str, m: Mon) -> Mon {
    m
}

/// Judgements over a whole run.
pub fn overall(p: &str, r: &mut Report) {
    if p == "I01" {
        let n = r.counts.get("integrations").copied().unwrap_or(0);
        let z = r.counts.get("integrations that came to a standstill").copied().unwrap_or(0);
        if z as f64 > 3.0 + 0.002 * n as f64 {
            r.violation(0, format!("{} integrations did not get to the end within 30000 steps, {} did", z, n));
        }
        let k = r.counts.get("errors above ten times the tolerance").copied().unwrap_or(0);
        if n >= 2000 && k as f64 > 0.06 * n as f64 {
            r.violation(0, format!("the error exceeds ten times the tolerance in {} of {} integrations", k, n));
        }
    }
    if p == "I13" {
        for (kind, above, share) in [("linear", "0.33", 0.02), ("nonlinear", "0.33", 0.06), ("linear", "2", 0.0005), ("nonlinear", "2", 0.004)] {
            let n = r.counts.get(&format!("{}, older Jacobian", kind)).copied().unwrap_or(0);
            let k = r.counts.get(&format!("{}, older Jacobian, correction above {}", kind, above)).copied().unwrap_or(0);
            if n > 20000 && k as f64 > share * n as f64 {
                r.violation(0, format!("{} problems: the accepted solution needs a correction above {} in {} of {} steps with Jacobian data from an earlier step", kind, above, k, n));
            }
        }
    }
}

pub fn spec(p: &str) -> Option<Mon> {
    let m = |f, quick, thorough, rule, required| Mon { f, quick, thorough, rule, required, assumptions: &["stand-ins for ndarray and failure behave as those crates do", "initial time is 0, as the interface fixes it"] };
    const RULE: &str = "random problems (manufactured ODEs and index-1 DAEs with known solution, stiff and nonstiff, linear and cubic, smooth and with fronts, both directions; Robertson, Van der Pol, Lorenz), tolerances and output patterns; ";
    let _ = RULE;
    Some(match p {
        "I01" => m(i01 as fn(&Cfg, u64, &mut Report), 30000, 300000, "manufactured ODEs and index-1 DAEs of size 1 to 33 with known solution, stiff and nonstiff, linear and cubic, both directions, random tolerances and output grids; every output compared with the exact solution; distinct by achieved error and step count",
            &["forward integrations", "backward integrations", "scalar tolerances", "per-component tolerances", "DAEs", "tightened runs"]),
        "I02" => m(i02, 24000, 120000, "random problems with and without root functions driven by random sequences of normal and one-step requests (repeated, already covered, close and distant times); distinct by sequence of returned times",
            &["normal returns", "normal returns without a step", "one-step returns", "root returns", "forward", "backward"]),
        "I03" => m(i03, 20000, 80000, "after steps of random problems, also after injected failures: all derivative orders at the ends and inside of the last step against the polynomial through sampled values; distinct by the derivative values",
            &["continuity at step starts", "queries before the first step", "2nd derivative decided", "3rd derivative decided", "4th derivative decided", "5th derivative decided", "rejections checked", "order 1", "order 3", "order 5"]),
        "I04" => m(i04, 30000, 120000, "one to four root functions of time, state and derivative with zeros placed in the first step, on step ends, close together, simultaneous, initially zero, identically zero, zero from some time on, with two zeros inside one step and a return between them, with zeros exactly the rounding tolerance apart; both modes and directions; distinct by the roots found",
            &["sides after a root", "plateaus reported", "twin zeros tried", "roots within the tolerance of the last return", "root returns", "simultaneous roots", "roots in the first step", "increasing roots", "decreasing roots", "zeros of time functions passed"]),
        "I05" => m(i05, 18000, 120000, "stop times set again and again relative to the internal time (within rounding of a step end, inside the next step, further away, at and behind the current time), both modes and directions, with injected failures; distinct by returned times",
            &["stops in one-step mode", "stops in normal mode", "stop times behind rejected", "steps with a stop time pending", "stops without a step"]),
        "I06" => m(i06, 36000, 150000, "injected nonlinear, linear-setup and error-test failures at every position including the first step, and natural ones; every retry compared with the state before the attempt; distinct by step times",
            &["retries after a failed error test", "retries after a failed nonlinear solve", "retries of the first step", "first-step retries seen from outside", "attempts by a later request", "runs ended at a failure limit"]),
        "I07" => m(i07, 30000, 80000, "all arguments of every residual, Jacobian and root call of random runs, with failures; distinct by step times",
            &["residual evaluations", "Jacobian evaluations", "y' relations checked", "root evaluations compared with the solution", "root evaluations before the first step"]),
        "I08" => m(i08, 25000, 80000, "every counter after every call against the callbacks observed, with failures and roots; distinct by step sizes",
            &["calls with all counters compared", "calls that failed", "runs of more than 70000 steps", "error test failures", "convergence failures", "last orders checked", "last steps checked"]),
        "I09" => m(i09, 30000, 80000, "step and order sequence of random runs, local error recomputed from the step sums; distinct by step sizes",
            &["local error tests recomputed", "local error above half the limit", "steps with failed attempts", "initial steps limited by the derivative", "initial steps from the first output distance", "order 1", "order 2", "order 5"]),
        "I10" => m(i10, 5000, 40000, "each problem run five times with the same first output time and different requests and queries in between, internal steps compared bit for bit; distinct by step times",
            &["internal steps compared"]),
        "I11" => m(i11, 1500000, 4000000, "random vectors of length 1 to 760 with zero, tiny, huge values, both tolerance forms, random masks, masked-out non-finite components; distinct by vectors",
            &["scalar weights", "per-component weights", "norms", "masked norms", "masked-out components that are not finite", "norms of unusual components"]),
        "I12" => m(i12, 6000, 100000, "illegal requests, unreachable accuracy, singular Jacobians, persistent and occasional failures, step limits and blow-up at random points of an integration; distinct by where it ended",
            &["output time equal to the start", "illegal initial weights reported", "illegal weights reported later", "tolerance factors checked", "continued with enlarged tolerances", "unreachable accuracy", "singular Jacobian from a time on", "nonlinear solve fails from some step on", "error test fails from some step on", "step limit reached, continued", "failed first steps", "hopeless runs ended by an error", "solution unchanged by failed attempts"]),
        "I13" => m(i13, 24000, 120000, "stopping of every Newton iteration against a reference of the convergence test, and residual of every accepted step of random runs, turned into a correction with the exact Jacobian; distinct by the sizes of the corrections",
            &["accepted steps checked", "corrections above 0.001", "DAEs"]),
        "I14" => m(i14, 20000, 80000, "every internal step of random runs followed by an independent reference of the method started from the same state (prediction, coefficients, setup rule, convergence test, error test, order and step selection, history update), and the Robertson example against the published output; distinct by step times",
            &["states compared", "order raised", "order lowered", "order 5", "convergence tests", "corrections scaled for a changed cj", "Robertson runs", "runs with a maximum step", "steps ending at a stop time"]),
        "I15" => m(crate::sp::i15, 400000, 4000000, "random arguments of the residual, Jacobian and root functions of the shipped sample problems, admissible places and velocities of the slider-crank, against the equations of motion and kinetics worked out independently; the Robertson example integrated; distinct by results",
            &["Roberts residuals", "Roberts Jacobians", "Roberts root functions", "slider-crank residuals", "admissible slider-crank states", "runs of the shipped Robertson problem"]),
        "I16" => m(crate::meta::i16, 16000, 400000, "each problem integrated twice in step, the second time in other units (powers of two) of time, solution, residual and root functions, mirrored in time and sign, or as uncoupled copies; same requests, queries, stop times and failures; everything observable compared bit for bit; distinct by step times",
            &["calls compared", "mirrored in time", "mirrored in sign", "other units of time", "other units of the solution", "a unit for each component", "equations in another order", "uncoupled copies", "root returns compared", "failing calls compared", "dense output compared"]),
        "I17" => m(crate::meta::i17, 12000, 300000, "each problem integrated alone, next to other integrations advanced in between, and on another thread; everything observable compared bit for bit; distinct by step times",
            &["calls compared", "interleaved with another integration", "on another thread", "after an integration that failed", "after another integration of the same problem"]),
        "I18" => m(crate::meta::i18, 12000, 200000, "linear setups and solves that fail at random places, once, repeatedly or for good, leaving nothing, NaN, large, small or half-solved values behind; what follows each failure, and every accepted step, checked; distinct by step times",
            &["failed linear setups and solves", "attempts that failed with them", "attempts that recovered with a fresh setup", "retries with a quarter of the step", "given up after ten failures", "accepted steps checked"]),
        "I19" => m(crate::meta::i19, 12000, 200000, "residual evaluations that return NaN or infinite values at random places (one component or all, once, in runs, or from a time on) and Jacobians with NaN entries; every convergence test after one, everything returned, retries, failure counts and later steps checked; distinct by step times",
            &["values that are not finite", "convergence tests of corrections that are not finite", "attempts that failed with them", "attempts that recovered with a fresh setup", "retries with a quarter of the step", "given up after ten failures", "continued after giving up", "accepted steps checked"]),
        _ => return None,
    })
}
