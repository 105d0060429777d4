//! The sample problems that the crate ships, judged against their documented equations.
use crate::report::{hash_f64s, Cfg, Report};
use crate::rng::Rng;
use ida::sample_problems::{Roberts, SlCrank};
use ida::tol_control::{TolControlSS, TolControlSV};
use ida::traits::*;
use ida::{Ida, IdaSolveStatus, IdaTask};
use ndarray::prelude::*;

const EPS: f64 = f64::EPSILON;

fn residual<P: Residual<Scalar = f64>>(p: &P, t: f64, y: &[f64], yp: &[f64], fill: f64) -> Vec<f64> {
    let mut r = Array1::<f64>::from_elem(y.len(), fill);
    let ya = Array1::from_vec(y.to_vec());
    let ypa = Array1::from_vec(yp.to_vec());
    p.res(t, ya.view(), ypa.view(), r.view_mut());
    r.to_vec()
}

/// |got - want| within rounding of the terms added; either sign of an equation is the same equation.
fn same(got: f64, want: f64, size: f64, sign: &mut Option<f64>) -> bool {
    let tol = 64.0 * EPS * size + 1e-300;
    match *sign {
        Some(s) => (got - s * want).abs() <= tol,
        None => {
            if want.abs() <= 8.0 * tol {
                return got.abs() <= 9.0 * tol;
            }
            if (got - want).abs() <= tol {
                *sign = Some(1.0);
                return true;
            }
            if (got + want).abs() <= tol {
                *sign = Some(-1.0);
                return true;
            }
            false
        }
    }
}

pub fn i15(cfg: &Cfg, case: u64, r: &mut Report) {
    let mut g = Rng::new(cfg.seed, "I15", case);
    r.evaluations += 1;
    match case % 16 {
        0 if case % 512 == 0 => roberts_run(&mut g, case, r),
        0..=7 => roberts(&mut g, case, r),
        _ => crank(&mut g, case, r),
    }
}

fn value(g: &mut Rng) -> f64 {
    match g.below(8) {
        0 => 0.0,
        1 => g.sym() * 10f64.powf(8.0 * g.sym()),
        2 => g.range(-3, 3) as f64,
        _ => g.sym() * 10f64.powf(3.0 * g.sym()),
    }
}

fn roberts(g: &mut Rng, case: u64, r: &mut Report) {
    let p = Roberts {};
    if p.model_size() != 3 || p.num_roots() != 2 {
        return r.violation(case, format!("Roberts: model size {} and {} roots, documented are 3 and 2", p.model_size(), p.num_roots()));
    }
    let mut signs = [None; 3];
    for _ in 0..8 {
        let y: Vec<f64> = (0..3).map(|_| value(g)).collect();
        let yp: Vec<f64> = (0..3).map(|_| value(g)).collect();
        let t = value(g);
        r.distinct.insert(hash_f64s(y.iter().chain(&yp).cloned()));
        let (k1, k2, k3) = (0.04, 1e4, 3e7);
        let a = [k1 * y[0], k2 * y[1] * y[2], k3 * y[1] * y[1]];
        let want = [-a[0] + a[1] - yp[0], a[0] - a[1] - a[2] - yp[1], y[0] + y[1] + y[2] - 1.0];
        let size = [a[0].abs() + a[1].abs() + yp[0].abs(), a[0].abs() + a[1].abs() + a[2].abs() + yp[1].abs(), y.iter().map(|v| v.abs()).sum::<f64>() + 1.0];
        let got = residual(&p, t, &y, &yp, f64::NAN);
        for i in 0..3 {
            if !same(got[i], want[i], size[i], &mut signs[i]) {
                return r.violation(case, format!("Roberts residual {} at y={:?} y'={:?}: {:e}, documented equation gives {:e}", i, y, yp, got[i], want[i]));
            }
        }
        r.count("Roberts residuals");
        // the Jacobian is the derivative of the residual
        let cj = if g.chance(0.1) { 0.0 } else { g.sym() * 10f64.powf(6.0 * g.sym()) };
        let mut jac = Array2::<f64>::zeros((3, 3));
        let ya = Array1::from_vec(y.clone());
        let ypa = Array1::from_vec(yp.clone());
        let ra = Array1::from_vec(got.clone());
        p.jac(t, cj, ya.view(), ypa.view(), ra.view(), jac.view_mut());
        // the exact derivative, divided by the sign of the equation
        let d = [
            [-k1 - cj, k2 * y[2], k2 * y[1]],
            [k1, -k2 * y[2] - 2.0 * k3 * y[1] - cj, -k2 * y[1]],
            [1.0, 1.0, 1.0],
        ];
        let sz = [
            [k1 + cj.abs(), (k2 * y[2]).abs(), (k2 * y[1]).abs()],
            [k1, (k2 * y[2]).abs() + 2.0 * (k3 * y[1]).abs() + cj.abs(), (k2 * y[1]).abs()],
            [1.0, 1.0, 1.0],
        ];
        for i in 0..3 {
            for j in 0..3 {
                let s = signs[i].unwrap_or(1.0);
                let e = jac[[i, j]] - s * d[i][j];
                if !(e.abs() <= 64.0 * EPS * sz[i][j] + 1e-300) && (signs[i].is_some() || !((jac[[i, j]] + d[i][j]).abs() <= 64.0 * EPS * sz[i][j])) {
                    return r.violation(case, format!("Roberts Jacobian ({},{}) at y={:?} cj={:e}: {:e}, derivative of the residual is {:e}", i, j, y, cj, jac[[i, j]], s * d[i][j]));
                }
            }
        }
        r.count("Roberts Jacobians");
        let mut gout = Array1::<f64>::from_elem(2, f64::NAN);
        p.root(t, ya.view(), ypa.view(), gout.view_mut());
        let gw = [y[0] - 1e-4, y[2] - 1e-2];
        for i in 0..2 {
            let sz = gw[i].abs() + 1.0;
            if !((gout[i] - gw[i]).abs() <= 4.0 * EPS * sz * (1.0 + y[0].abs().max(y[2].abs()))) {
                return r.violation(case, format!("Roberts root function {} at y={:?}: {:e}, documented {:e}", i, y, gout[i], gw[i]));
            }
        }
        r.count("Roberts root functions");
    }
}

/// Crank angle q, slider place x, rod angle p; half-lengths a and 1/2 as in the published program.
struct Ref {
    rows: [f64; 10],
    size: [f64; 10],
    l2: f64,
}

fn crank_ref(y: &[f64], yp: &[f64]) -> Ref {
    let (a, j1, m2, j2, k, c, l0, f0) = (0.5, 1.0, 1.0, 2.0, 1.0, 1.0, 1.0, 1.0);
    let (q, x, p) = (y[0], y[1], y[2]);
    let v = [y[3], y[4], y[5]];
    let (lam, mu) = ([y[6], y[7]], [y[8], y[9]]);
    // spring between the middle of the crank and the middle of the rod
    let dx = x - p.cos() / 2.0 - a * q.cos() / 2.0;
    let dy = -(p.sin() + a * q.sin()) / 2.0;
    let l2 = dx * dx + dy * dy;
    let l = l2.sqrt();
    // derivatives of the length
    let ddx = [a * q.sin() / 2.0, 1.0, p.sin() / 2.0];
    let ddy = [-a * q.cos() / 2.0, 0.0, -p.cos() / 2.0];
    let mut dl = [0.0; 3];
    let mut dlsize = [0.0; 3];
    for i in 0..3 {
        dl[i] = (dx * ddx[i] + dy * ddy[i]) / l;
        // the published form works with the expanded square: rounding follows its terms
        dlsize[i] = (x.abs() + 1.0) * 1.5 / l;
    }
    let ld: f64 = (0..3).map(|i| dl[i] * v[i]).sum();
    let ldsize: f64 = (0..3).map(|i| dlsize[i] * v[i].abs()).sum();
    let expand = (x * x + 2.0 * x.abs() + 2.0) / l2;
    let force = k * (l - l0) + c * ld;
    let fsize = k * (l * (1.0 + expand) + l0) + c * ldsize * (1.0 + expand);
    let mut gen = [0.0; 3];
    let mut gsize = [0.0; 3];
    for i in 0..3 {
        gen[i] = -force * dl[i];
        gsize[i] = fsize * dlsize[i] * (1.0 + expand) + 2.0;
    }
    gen[1] += f0;
    gen[2] -= f0 * p.sin();
    // constraint Jacobian of (x - cos p - a cos q, -sin p - a sin q)
    let gj = [[a * q.sin(), 1.0, p.sin()], [-a * q.cos(), 0.0, -p.cos()]];
    let m = [j1, m2, j2];
    let mut rows = [0.0; 10];
    let mut size = [0.0; 10];
    for i in 0..3 {
        rows[i] = yp[i] - v[i] + gj[0][i] * mu[0] + gj[1][i] * mu[1];
        size[i] = yp[i].abs() + v[i].abs() + mu[0].abs() + mu[1].abs();
        rows[3 + i] = m[i] * yp[3 + i] - gen[i] + gj[0][i] * lam[0] + gj[1][i] * lam[1];
        size[3 + i] = 2.0 * yp[3 + i].abs() + gsize[i] + lam[0].abs() + lam[1].abs();
    }
    rows[6] = x - p.cos() - a * q.cos();
    rows[7] = -p.sin() - a * q.sin();
    size[6] = x.abs() + 2.0;
    size[7] = 2.0;
    for j in 0..2 {
        rows[8 + j] = (0..3).map(|i| gj[j][i] * v[i]).sum();
        size[8 + j] = (0..3).map(|i| v[i].abs()).sum::<f64>();
    }
    Ref { rows, size, l2 }
}

fn crank(g: &mut Rng, case: u64, r: &mut Report) {
    let p = SlCrank::default();
    if p.model_size() != 10 {
        return r.violation(case, format!("slider-crank: model size {}, documented are 10 unknowns", p.model_size()));
    }
    let mut signs = [None; 10];
    for _ in 0..6 {
        let scale = 10f64.powf(2.0 * g.sym());
        let mut y: Vec<f64> = (0..10).map(|_| if g.chance(0.15) { 0.0 } else { g.sym() * scale }).collect();
        y[0] = 4.0 * g.sym();
        y[2] = 4.0 * g.sym();
        y[1] = 3.0 * g.sym();
        let mut yp: Vec<f64> = (0..10).map(|_| if g.chance(0.15) { 0.0 } else { g.sym() * scale }).collect();
        let on_manifold = g.chance(0.4);
        if on_manifold {
            // a configuration the mechanism can take: sin p = -a sin q, either way the rod can point
            let s = -0.5 * y[0].sin();
            y[2] = if g.chance(0.5) { s.asin() } else { std::f64::consts::PI - s.asin() };
            y[1] = y[2].cos() + 0.5 * y[0].cos();
            // and a velocity of it
            let qd = g.sym() * scale;
            let pd = -0.5 * y[0].cos() * qd / y[2].cos();
            y[3] = qd;
            y[5] = pd;
            y[4] = -y[2].sin() * pd - 0.5 * y[0].sin() * qd;
            y[8] = 0.0;
            y[9] = 0.0;
            for i in 0..3 {
                yp[i] = y[3 + i];
            }
        }
        let w = crank_ref(&y, &yp);
        if w.l2 < 1e-3 {
            r.count("slider-crank places with a vanishing spring, skipped");
            continue;
        }
        let got = residual(&p, g.sym(), &y, &yp, f64::NAN);
        r.distinct.insert(hash_f64s(got.iter().cloned()));
        for i in 0..10 {
            if !same(got[i], w.rows[i], 16.0 * w.size[i], &mut signs[i]) {
                return r.violation(case, format!("slider-crank residual {} at y={:?} y'={:?}: {:e}, equations of motion give {:e}", i, y, yp, got[i], w.rows[i]));
            }
        }
        if on_manifold {
            for i in [0, 1, 2, 6, 7, 8, 9] {
                if !(got[i].abs() <= 64.0 * EPS * w.size[i] + 1e-300) {
                    return r.violation(case, format!("slider-crank residual {} is {:e} for an admissible place and velocity y={:?}", i, got[i], y));
                }
            }
            r.count("admissible slider-crank states");
        }
        r.count("slider-crank residuals");
        // independent of what the result held before
        let again = residual(&p, 0.0, &y, &yp, 1e30);
        if again != got {
            return r.violation(case, format!("slider-crank residual depends on the time or on the old content of the result: {:?} {:?}", got, again));
        }
    }
}

/// The shipped Robertson problem with the shipped Jacobian and root functions, as the example program runs it.
fn roberts_run(g: &mut Rng, case: u64, r: &mut Report) {
    let sv = g.chance(0.7);
    let rtol = 1e-4 * 10f64.powf(-3.0 * g.unit());
    let at = if case == 0 { 1.0 } else { 10f64.powf(-2.0 * g.unit()) };
    let rtol = if case == 0 { 1e-4 } else { rtol };
    let y0 = array![1.0, 0.0, 0.0];
    let yp0 = array![-0.04, 0.04, 0.0];
    let out = if sv || case == 0 {
        drive(Ida::<_, ida::linear::Dense<f64>, ida::nonlinear::newton::Newton<Roberts>, _>::new(Roberts {}, y0, yp0, TolControlSV::new(rtol, array![1e-8 * at, 1e-14 * at, 1e-6 * at])))
    } else {
        drive(Ida::<_, ida::linear::Dense<f64>, ida::nonlinear::newton::Newton<Roberts>, _>::new(Roberts {}, y0, yp0, TolControlSS::new(rtol, 1e-14)))
    };
    let (roots, y) = match out {
        Ok(v) => v,
        Err(e) => return r.violation(case, format!("the Robertson example (rtol {:e}) ends with {}", rtol, e)),
    };
    // reference roots, from a computation with tolerance 1e-10
    let want = [(0usize, 2.6391e-1, 1usize), (1, 2.0790e7, 0)];
    if roots.len() != 2 {
        return r.violation(case, format!("the Robertson example finds roots {:?}, documented are two", roots));
    }
    for (k, t, i) in want {
        let (rt, ref which) = roots[k];
        let dirs = [-1.0, 1.0];
        if (rt - t).abs() > 3e-3 * t || which[i] != dirs[i] || which[1 - i] != 0.0 {
            return r.violation(case, format!("the Robertson example finds root {:?}, documented is function {} at {:e}", roots[k], i, t));
        }
    }
    let exact = [5.2083474251394888e-08, 2.0833390772616859e-13, 9.9999994791631752e-01];
    let mut sum = 0.0;
    for i in 0..3 {
        let atol = [1e-8, 1e-14, 1e-6][i];
        let w = rtol.max(1e-4) * f64::abs(exact[i]) + 10.0 * atol;
        sum += ((y[i] - exact[i]) / w).powi(2);
    }
    if !((sum / 3.0).sqrt() < 1.0) {
        return r.violation(case, format!("the Robertson example ends at {:?}, its own check expects {:?}", y, exact));
    }
    r.distinct.insert(hash_f64s(y.iter().cloned()));
    r.count("runs of the shipped Robertson problem");
}

type Ends = (Vec<(f64, Vec<f64>)>, Vec<f64>);

fn drive<T: ida::tol_control::TolControl<f64>>(made: Ida<Roberts, ida::linear::Dense<f64>, ida::nonlinear::newton::Newton<Roberts>, T>) -> Result<Ends, String> {
    let mut ida = made;
    let mut roots = vec![];
    let mut tout = 0.4;
    let mut k = 0;
    let mut calls = 0;
    loop {
        calls += 1;
        if calls > 40 {
            return Err("too many calls".into());
        }
        let mut tret = f64::NAN;
        match ida.solve(tout, &mut tret, IdaTask::Normal) {
            Ok(IdaSolveStatus::Root) => {
                let w = ida.get_root_info();
                roots.push((tret, w.iter().map(|v| *v as f64).collect()));
            }
            Ok(IdaSolveStatus::Success) => {
                k += 1;
                if k == 12 {
                    let y = ida.get_yy().to_vec();
                    return Ok((roots, y));
                }
                tout *= 10.0;
            }
            Ok(_) => return Err("an unexpected status".into()),
            Err(e) => return Err(format!("{:?}", e)),
        }
    }
}
