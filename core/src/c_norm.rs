//! C06: weighted RMS norm.
use crate::c_linear::panic_text;
use crate::fl::DD;
use crate::report::{hash_f64s, Cfg, Report};
use crate::rng::Rng;
use nalgebra::{DMatrix, DVector, SVector};
use nonlinear::norm_wrms::NormWRMS;
use std::panic::{catch_unwind, AssertUnwindSafe};

const U: f64 = 1.1102230246251565e-16;

fn dynamic(x: &[f64], w: &[f64]) -> f64 {
    DVector::from_column_slice(x).norm_wrms(&DVector::from_column_slice(w))
}
fn stat<const N: usize>(x: &[f64], w: &[f64]) -> f64 {
    SVector::<f64, N>::from_column_slice(x).norm_wrms(&SVector::<f64, N>::from_column_slice(w))
}
/// static x with dynamic w
fn mixed<const N: usize>(x: &[f64], w: &[f64]) -> f64 {
    SVector::<f64, N>::from_column_slice(x).norm_wrms(&DVector::from_column_slice(w))
}
/// every third element of a row/column of a larger, garbage-filled matrix
fn strided(x: &[f64], w: &[f64], r: &mut Rng) -> f64 {
    let n = x.len();
    let mut big = DMatrix::<f64>::from_element(3 * n + 1, 4, f64::NAN);
    for i in 0..n {
        big[(3 * i + 1, 1)] = x[i];
        big[(3 * i, 3)] = w[i];
    }
    if r.chance(0.5) {
        let xv = big.view_with_steps((1, 1), (n, 1), (2, 0));
        let wv = big.view_with_steps((0, 3), (n, 1), (2, 0));
        xv.column(0).norm_wrms(&wv.column(0))
    } else {
        let xv: DVector<f64> = big.view_with_steps((1, 1), (n, 1), (2, 0)).column(0).into_owned();
        let wv = big.view_with_steps((0, 3), (n, 1), (2, 0));
        xv.norm_wrms(&wv.column(0))
    }
}
/// n x 1 matrices of fully dynamic shape
fn matrix_shape(x: &[f64], w: &[f64]) -> f64 {
    DMatrix::from_column_slice(x.len(), 1, x).norm_wrms(&DVector::from_column_slice(w))
}
fn forms(x: &[f64], w: &[f64], r: &mut Rng) -> Vec<(&'static str, f64)> {
    let mut v = vec![("dynamic", dynamic(x, w)), ("strided view", strided(x, w, r)), ("n x 1 matrix", matrix_shape(x, w))];
    macro_rules! s { ($($k:literal)*) => { match x.len() { $($k => { v.push(("static", stat::<$k>(x, w))); v.push(("static/dynamic", mixed::<$k>(x, w))); })* _ => {} } } }
    s!(1 2 3 4 5 6 7 8 9 10 12 16 20 33);
    v
}
pub fn close(a: f64, b: f64, n: usize) -> bool {
    (a - b).abs() <= 2.0 * (n as f64 + 6.0) * U * b.abs()
}
pub fn c06(cfg: &Cfg, case: u64, rep: &mut Report) {
    let mut r = Rng::new(cfg.seed, "C06", case);
    let n = match r.below(10) {
        0 => 1,
        1 => 2,
        2..=5 => 1 + r.below(20),
        6..=8 => 1 + r.below(120),
        _ if r.chance(0.004) => 65000 + r.below(6000),
        _ => 1 + r.below(if cfg.thorough() { 20000 } else { 1500 }),
    };
    rep.evaluations += 1;
    let kind = r.below(10);
    let se = r.range(-60, 60);
    let sx = 10f64.powi(se as i32);
    let sw = 10f64.powi((r.range(-60, 60)) as i32);
    let mut x: Vec<f64> = (0..n).map(|_| r.sym() * sx).collect();
    let mut w: Vec<f64> = (0..n).map(|_| r.sym() * sw).collect();
    let mut special = "";
    match kind {
        0 => {
            special = "zero products";
            for i in 0..n {
                if r.chance(0.5) {
                    x[i] = 0.0
                } else {
                    w[i] = -0.0
                }
            }
        }
        1 => {
            special = "one nonzero product";
            let k = *r.pick(&[0, n - 1, n / 2]);
            for i in 0..n {
                if i != k {
                    x[i] = 0.0
                }
            }
            if x[k] == 0.0 || w[k] == 0.0 {
                x[k] = sx;
                w[k] = sw;
            }
        }
        2 => {
            special = "one dominating product";
            let k = *r.pick(&[0, n - 1, n / 2]);
            x[k] = 1e12 * sx;
            w[k] = sw;
        }
        3 => {
            special = "not finite";
            let k = *r.pick(&[0, n - 1, n / 2]);
            if r.chance(0.5) {
                x[k] = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            } else {
                w[k] = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            }
        }
        4 => {
            special = "constant";
            let (a, b) = (x[0], w[0]);
            for i in 0..n {
                x[i] = a;
                w[i] = b;
            }
        }
        5 => {
            special = "all negative";
            for i in 0..n {
                x[i] = -x[i].abs();
                w[i] = w[i].abs();
            }
        }
        6 => {
            special = "wide range";
            for i in 0..n {
                x[i] = r.sym() * 10f64.powi(r.range(-60, 60) as i32);
            }
        }
        _ => {}
    }
    // reference
    let mut s = DD::default();
    let (mut nan, mut inf, mut nz, mut bigp) = (false, false, false, 0f64);
    for i in 0..n {
        let p = x[i] * w[i];
        nan |= p.is_nan();
        inf |= p.is_infinite();
        nz |= p != 0.0;
        bigp = bigp.max(p.abs());
        s.add_prod(p, p);
    }
    let ctx = |x: &[f64], w: &[f64]| format!("n={n} {special} x={:?} w={:?}", &x[..n.min(6)], &w[..n.min(6)]);
    let out = catch_unwind(AssertUnwindSafe(|| {
        let fs = forms(&x, &w, &mut r);
        (fs, r.clone())
    }));
    let (fs, mut r) = match out {
        Err(p) => return rep.violation(case, format!("panic: {}\n{}", panic_text(p), ctx(&x, &w))),
        Ok(v) => v,
    };
    rep.distinct.insert(hash_f64s(x.iter().chain(w.iter()).copied()));
    rep.add("norm values judged", fs.len() as u64);
    for (name, v) in &fs {
        rep.count(&format!("layout {name}"));
        let bad = if nan {
            rep.count("NaN products");
            !v.is_nan()
        } else if inf {
            rep.count("infinite products");
            *v != f64::INFINITY
        } else if !nz {
            rep.count("all products zero");
            *v != 0.0
        } else {
            !(*v > 0.0) || !close(*v, (s.val() / n as f64).sqrt(), n)
        };
        if bad {
            rep.violation(case, format!("{name} norm is {v:e}, the definition gives {:e}\n{}", (s.val() / n as f64).sqrt(), ctx(&x, &w)));
            return;
        }
    }
    if nan || inf {
        return;
    }
    // axioms, judged only against other values of the code
    let v = fs[0].1;
    let p = r.perm(n);
    let px: Vec<f64> = p.iter().map(|&i| if r.chance(0.5) { -x[i] } else { x[i] }).collect();
    let pw: Vec<f64> = p.iter().map(|&i| if r.chance(0.5) { -w[i] } else { w[i] }).collect();
    let v2 = dynamic(&px, &pw);
    if !close(v2, v, n) {
        rep.violation(case, format!("norm changes from {v:e} to {v2:e} under a permutation with sign flips\n{}", ctx(&x, &w)));
    }
    let c = r.sym() * 10f64.powi(r.range(-8, 8) as i32);
    let cx: Vec<f64> = x.iter().map(|a| a * c).collect();
    let v3 = dynamic(&cx, &w);
    if !close(v3, c.abs() * v, n) {
        rep.violation(case, format!("scaling by {c:e}: {v3:e} instead of {:e}\n{}", c.abs() * v, ctx(&x, &w)));
    }
    let z: Vec<f64> = (0..n).map(|_| r.sym() * sx).collect();
    let vz = dynamic(&z, &w);
    let sum: Vec<f64> = x.iter().zip(&z).map(|(a, b)| a + b).collect();
    let vs = dynamic(&sum, &w);
    if !(vs <= (v + vz) * (1.0 + 4.0 * (n as f64 + 6.0) * U)) {
        rep.violation(case, format!("triangle inequality: {vs:e} > {v:e} + {vz:e}\n{}", ctx(&x, &w)));
    }
    // doubling the vector leaves a mean unchanged
    let xx: Vec<f64> = x.iter().chain(x.iter()).copied().collect();
    let ww: Vec<f64> = w.iter().chain(w.iter()).copied().collect();
    if !close(dynamic(&xx, &ww), v, 2 * n) {
        rep.violation(case, format!("norm of the doubled vector differs from {v:e}\n{}", ctx(&x, &w)));
    }
    rep.count("axiom sets checked");
    rep.sample(|| format!("n={n} {special} norm={v:e}"));
}
