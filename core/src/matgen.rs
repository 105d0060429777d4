//! Matrix generators. Values are f64 representable in the working precision; row-major.
use crate::fl::Fl;
use crate::rng::Rng;

pub struct Mat {
    pub n: usize,
    pub a: Vec<f64>,
    /// every intermediate of the elimination (and of the solve with b) is exactly representable
    pub exact: bool,
    /// exact mode: known solution and right-hand side
    pub x: Vec<f64>,
    pub b: Vec<f64>,
    /// exact mode: 1-based first column whose candidates are all zero
    pub singular: Option<usize>,
    pub kind: &'static str,
}
fn rnd(is32: bool, x: f64) -> f64 {
    if is32 {
        x as f32 as f64
    } else {
        x
    }
}
pub fn round_to(is32: bool, v: &mut [f64]) {
    for x in v.iter_mut() {
        *x = rnd(is32, *x)
    }
}
fn p2(e: i64) -> f64 {
    if e < -1000 {
        2f64.powi(-1000) * 2f64.powi((e + 1000) as i32)
    } else {
        2f64.powi(e as i32)
    }
}

/// A = P^T L U with dyadic L (|l| <= 3/4, so no pivot ties), U with power-of-two diagonal, small integers above.
/// Everything the elimination computes is exact, in every summation order.
pub fn exact(r: &mut Rng, n: usize, is32: bool, want_singular: bool) -> Mat {
    let density = *r.pick(&[0.15, 0.4, 0.8, 1.0]);
    let lset: &[f64] = &[0.25, -0.25, 0.5, -0.5, 0.75, -0.75];
    let mut l = vec![0.0; n * n];
    let mut u = vec![0.0; n * n];
    for i in 0..n {
        l[i * n + i] = 1.0;
        for j in 0..i {
            if r.chance(density) {
                l[i * n + j] = *r.pick(lset);
            }
        }
    }
    let negdom = r.chance(0.3); // all pivots negative: catches a missing abs()
    for i in 0..n {
        let mag = p2(r.range(0, 3));
        let s = if negdom || r.chance(0.5) { -1.0 } else { 1.0 };
        u[i * n + i] = s * mag;
        for j in i + 1..n {
            if r.chance(density) {
                u[i * n + j] = r.range(-4, 4) as f64;
            }
        }
    }
    let mut kind = if want_singular { "exact-singular" } else { "exact" };
    // a very small pivot at one place: ill conditioned but exactly nonsingular
    let mut tiny = false;
    if r.chance(0.35) {
        tiny = true;
        let cap = if is32 { 8 } else { 30 };
        let k = r.below(n);
        u[k * n + k] = p2(-r.range(4, cap));
        if !want_singular {
            kind = "exact-tiny-pivot";
        }
    }
    let mut singular = None;
    if want_singular {
        let k = if r.chance(0.3) { n - 1 } else if r.chance(0.3) { 0 } else { r.below(n) };
        u[k * n + k] = 0.0;
        for j in k + 1..n {
            if r.chance(0.2) {
                u[j * n + j] = 0.0;
            }
        }
        if r.chance(0.2) {
            // entire column zero
            for i in 0..k {
                u[i * n + k] = 0.0;
            }
        }
        if r.chance(0.1) {
            for v in u.iter_mut() {
                *v = 0.0
            }
        }
        for k in 0..n {
            if u[k * n + k] == 0.0 {
                singular = Some(k + 1);
                break;
            }
        }
    }
    // scaling: column scaling by powers of two keeps exactness and the pivot order
    let emax: i64 = if is32 { 90 } else { 800 };
    let mut cs = vec![0i64; n];
    let mode = r.below(6);
    match mode {
        0 => {
            for c in cs.iter_mut() {
                *c = r.range(-20, 20)
            }
        }
        1 => {
            let g = r.range(-emax, emax);
            for c in cs.iter_mut() {
                *c = g
            }
        }
        2 => {
            for c in cs.iter_mut() {
                *c = r.range(-emax, emax)
            }
        }
        3 => {
            // a single minute column
            let k = r.below(n);
            cs[k] = -r.range(40, emax);
        }
        _ => {}
    }
    let perm = match r.below(4) {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        _ => r.perm(n),
    };
    let mut a = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            let mut s = 0.0;
            for k in 0..=i.min(j) {
                s += l[i * n + k] * u[k * n + j];
            }
            a[perm[i] * n + j] = s * p2(cs[j]);
        }
    }
    if r.chance(0.2) {
        for v in a.iter_mut() {
            if *v == 0.0 && r.chance(0.5) {
                *v = -0.0
            }
        }
    }
    // x, b
    let xm = if tiny { 2 } else { 8 };
    let t: i64 = if mode == 2 || mode == 3 || mode == 1 { 0 } else { r.range(-30, 30) };
    let mut x: Vec<f64> = (0..n).map(|_| r.range(-xm, xm) as f64).collect();
    if r.chance(0.15) {
        for v in x.iter_mut() {
            *v = 0.0
        }
        x[r.below(n)] = 1.0;
    }
    let mut b = vec![0.0; n];
    for i in 0..n {
        let mut s = 0.0;
        for k in 0..n {
            let c = l[i * n + k];
            if c == 0.0 {
                continue;
            }
            let mut y = 0.0;
            for j in k..n {
                y += u[k * n + j] * x[j];
            }
            s += c * y;
        }
        b[perm[i]] = s * p2(t);
    }
    for j in 0..n {
        x[j] = x[j] * p2(t - cs[j]);
    }
    // is every sum of these quanta really within the significand?
    let quantum = 0.25 * u.iter().fold(1f64, |m, v| if *v != 0.0 { m.min(v.abs()) } else { m });
    let lim = if is32 { 8388608.0 } else { 4503599627370496.0 };
    let xo: Vec<f64> = (0..n).map(|j| (x[j] * p2(cs[j] - t)).abs()).collect();
    let idp: Vec<usize> = (0..n).collect();
    let worst = lu_abs_times(n, &idp, &l, &u, &xo).iter().fold(0f64, |m, v| m.max(*v));
    let wa = lu_abs_times(n, &idp, &l, &u, &vec![1.0; n]).iter().fold(0f64, |m, v| m.max(*v));
    let is_exact = worst / quantum < lim && wa / quantum < lim;
    Mat { n, a, exact: is_exact, x, b, singular, kind }
}

/// Exactly structured matrices for which the verdict of elimination is known without arithmetic:
/// zero rows, duplicated rows, structurally deficient patterns.
pub fn structural_singular(r: &mut Rng, n: usize, is32: bool) -> Mat {
    // upper triangular (permuted rows) with one zero diagonal: no fill, no arithmetic that could round.
    let k = r.below(n);
    let mut a = vec![0.0; n * n];
    let perm = r.perm(n);
    let wide = r.chance(0.5);
    for i in 0..n {
        for j in i..n {
            if i == j && i == k {
                continue;
            }
            // row k of U and below in column order: rows i<=j only, so candidates at step k are rows >= k: all zero in column k
            let v = if wide { r.sym() * p2(r.range(-60, 60)) } else { r.sym() };
            a[perm[i] * n + j] = rnd(is32, if v == 0.0 { 1.0 } else { v });
        }
    }
    Mat { n, a, exact: false, x: vec![], b: vec![], singular: Some(k + 1), kind: "triangular-singular" }
}

/// Nonsingular without any rounding question: permuted triangular with minute / huge / subnormal diagonals.
pub fn structural_nonsingular(r: &mut Rng, n: usize, is32: bool) -> Mat {
    let mut a = vec![0.0; n * n];
    let perm = r.perm(n);
    let kind;
    let diag = r.chance(0.4);
    let (emin, emax) = if is32 { (-140i64, 120i64) } else { (-1060i64, 1000i64) };
    if diag {
        kind = "scaled-permutation";
        for i in 0..n {
            let v = rnd(is32, (1.0 + r.unit()) * if r.chance(0.5) { -1.0 } else { 1.0 } * p2(r.range(emin, emax)));
            a[perm[i] * n + i] = v;
        }
    } else {
        kind = "graded-triangular";
        for i in 0..n {
            for j in i..n {
                let e = if i == j { r.range(emin / 2, emax / 2) } else { r.range(-10, 10) };
                let v = rnd(is32, (1.0 + r.unit()) * p2(e) * if r.chance(0.5) { -1.0 } else { 1.0 });
                if i == j || r.chance(0.6) {
                    a[perm[i] * n + j] = v;
                }
            }
        }
    }
    Mat { n, a, exact: false, x: vec![], b: vec![], singular: None, kind }
}

pub fn general(r: &mut Rng, n: usize, is32: bool) -> Mat {
    let mut a = vec![0.0; n * n];
    let kind;
    let k = r.below(16);
    match k {
        0 => {
            kind = "uniform";
            for v in a.iter_mut() {
                *v = r.sym()
            }
        }
        1 => {
            kind = "row-scaled";
            for i in 0..n {
                let s = 10f64.powi(r.range(-6, 6) as i32);
                for j in 0..n {
                    a[i * n + j] = r.sym() * s;
                }
            }
        }
        2 => {
            kind = "col-scaled";
            for j in 0..n {
                let s = 10f64.powi(r.range(-6, 6) as i32);
                for i in 0..n {
                    a[i * n + j] = r.sym() * s;
                }
            }
        }
        3 => {
            kind = "sparse";
            let p = r.perm(n);
            let d = 2.0 / n as f64;
            for i in 0..n {
                for j in 0..n {
                    if r.chance(d) {
                        a[i * n + j] = r.sym()
                    }
                }
                a[i * n + p[i]] += 1.0 + r.unit();
            }
        }
        4 => {
            kind = "hilbert";
            let s = r.range(0, 4) as f64;
            for i in 0..n {
                for j in 0..n {
                    a[i * n + j] = 1.0 / (i as f64 + j as f64 + 1.0 + s);
                }
            }
        }
        5 => {
            kind = "wilkinson";
            for i in 0..n {
                for j in 0..n {
                    a[i * n + j] = if j == n - 1 || i == j {
                        1.0
                    } else if i > j {
                        -0.99 + 0.0001 * r.unit()
                    } else {
                        0.0
                    };
                }
            }
        }
        6 => {
            kind = "banded";
            let p = r.perm(n);
            for i in 0..n {
                for j in i.saturating_sub(1)..(i + 2).min(n) {
                    a[p[i] * n + j] = r.sym() + if i == j { 0.5 } else { 0.0 };
                }
            }
        }
        7 => {
            kind = "graded";
            for i in 0..n {
                for j in 0..n {
                    a[i * n + j] = r.sym() * 2f64.powi(-((i + j) as i32 % 40));
                }
            }
        }
        8 => {
            kind = "lower-triangular";
            for i in 0..n {
                for j in 0..=i {
                    a[i * n + j] = r.sym() + if i == j { 1.5 } else { 0.0 };
                }
            }
        }
        9 => {
            kind = "near-singular";
            for v in a.iter_mut() {
                *v = r.sym()
            }
            if n > 1 {
                let (c, d) = (r.below(n), r.below(n));
                let e = 10f64.powi(-(r.range(2, if is32 { 5 } else { 12 }) as i32));
                if c != d {
                    for i in 0..n {
                        a[i * n + c] = a[i * n + d] * 0.75 + e * r.sym();
                    }
                }
            }
        }
        10 => {
            kind = "circulant";
            let c: Vec<f64> = (0..n).map(|_| r.sym()).collect();
            for i in 0..n {
                for j in 0..n {
                    a[i * n + j] = c[(j + n - i) % n];
                }
            }
        }
        11 => {
            kind = "negative-dominant";
            let p = r.perm(n);
            for i in 0..n {
                for j in 0..n {
                    a[p[i] * n + j] = r.unit() * 0.5 - if i == j { 3.0 + r.unit() } else { 0.0 };
                }
            }
        }
        12 => {
            kind = "symmetric-ties";
            for i in 0..n {
                for j in 0..=i {
                    let v = r.range(-2, 2) as f64;
                    a[i * n + j] = v;
                    a[j * n + i] = v;
                }
                a[i * n + i] += 0.5;
            }
        }
        13 => {
            kind = "companion";
            for j in 0..n {
                a[j] = 0.5 + r.sym() * 3.0;
            }
            for i in 1..n {
                a[i * n + i - 1] = 1.0;
            }
            if a[n - 1].abs() < 0.1 {
                a[n - 1] = 1.0
            }
        }
        14 => {
            // what IDA hands to the solver: cj*M - J with cj large, zero rows for algebraic parts
            kind = "dae-jacobian";
            let cj = 10f64.powi(r.range(-2, 9) as i32);
            for i in 0..n {
                for j in 0..n {
                    a[i * n + j] = if r.chance(0.5) { r.sym() * 10f64.powi(r.range(-2, 4) as i32) } else { 0.0 };
                }
                if r.chance(0.7) {
                    a[i * n + i] -= cj;
                } else {
                    for j in 0..n {
                        a[i * n + j] = 1.0 + if i == j { r.unit() } else { 0.0 };
                    }
                }
            }
        }
        _ => {
            kind = "block-antidiagonal";
            for i in 0..n {
                for j in 0..n {
                    a[i * n + j] = if i + j + 1 == n { 1.0 + r.unit() } else if i + j + 1 < n { 0.3 * r.sym() } else { 1e-3 * r.sym() };
                }
            }
        }
    }
    if r.chance(0.2) {
        let e = r.range(if is32 { -40 } else { -300 }, if is32 { 40 } else { 300 });
        for v in a.iter_mut() {
            *v *= p2(e)
        }
    }
    round_to(is32, &mut a);
    Mat { n, a, exact: false, x: vec![], b: vec![], singular: None, kind }
}

/// Independent reference LU with partial pivoting in f64 (row-oriented, on a permutation vector).
pub struct RefLu {
    pub ok: bool,
    /// no pivot choice is close to a tie at the working precision
    pub clear: bool,
    pub perm: Vec<usize>,
    pub l: Vec<f64>,
    pub u: Vec<f64>,
    /// smallest nonzero and largest magnitude of any elementary product/multiplier/entry
    pub lo: f64,
    pub hi: f64,
}
pub fn ref_lu(n: usize, a: &[f64], u_round: f64) -> RefLu {
    let mut w = a.to_vec();
    let mut perm: Vec<usize> = (0..n).collect();
    let mut clear = true;
    let (mut lo, mut hi) = (f64::INFINITY, 0f64);
    let amax = a.iter().fold(0f64, |m, x| m.max(x.abs()));
    let mut grow = amax;
    let mut note = |x: f64| {
        let x = x.abs();
        if x != 0.0 {
            if x < lo {
                lo = x
            }
            if x > hi {
                hi = x
            }
        }
    };
    for k in 0..n {
        let mut best = k;
        for i in k..n {
            if w[perm[i] * n + k].abs() > w[perm[best] * n + k].abs() {
                best = i;
            }
        }
        let pv = w[perm[best] * n + k];
        let eps = if k == 0 { 0.0 } else { 8.0 * n as f64 * u_round * grow };
        for i in k..n {
            if i != best && w[perm[i] * n + k].abs() >= pv.abs() * (1.0 - 1e-6) - 2.0 * eps {
                clear = false;
            }
        }
        perm.swap(k, best);
        if !(pv.abs() > 0.0) || !pv.is_finite() {
            return RefLu { ok: false, clear, perm, l: vec![], u: vec![], lo, hi };
        }
        if pv.abs() <= 64.0 * eps {
            // the pivot itself is noise
            clear = false;
        }
        note(pv);
        note(1.0 / pv);
        for i in k + 1..n {
            let m = w[perm[i] * n + k] / pv;
            note(m);
            w[perm[i] * n + k] = m;
            for j in k + 1..n {
                let p = m * w[perm[k] * n + j];
                note(p);
                w[perm[i] * n + j] -= p;
                grow = grow.max(w[perm[i] * n + j].abs());
            }
        }
    }
    let (mut l, mut u) = (vec![0.0; n * n], vec![0.0; n * n]);
    for i in 0..n {
        for j in 0..n {
            let v = w[perm[i] * n + j];
            if j < i {
                l[i * n + j] = v
            } else {
                u[i * n + j] = v;
                note(v);
            }
        }
        l[i * n + i] = 1.0;
    }
    RefLu { ok: true, clear, perm, l, u, lo, hi }
}

/// |L| |U| v as a vector in original row order, and its row sums against |x|.
pub fn lu_abs_times(n: usize, perm: &[usize], l: &[f64], u: &[f64], x: &[f64]) -> Vec<f64> {
    let mut y = vec![0.0; n];
    for k in 0..n {
        for j in k..n {
            y[k] += u[k * n + j].abs() * x[j].abs();
        }
    }
    let mut o = vec![0.0; n];
    for i in 0..n {
        let mut s = 0.0;
        for k in 0..=i {
            s += l[i * n + k].abs() * y[k];
        }
        o[perm[i]] = s;
    }
    o
}
pub fn is32_of<T: Fl>() -> bool {
    T::U > 1e-10
}
