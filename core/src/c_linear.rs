//! C01..C04: dense LU.
use crate::erased::{new_dense, DynDense, LSIZES};
use crate::fl::DD;
use crate::matgen::{self, Mat};
use crate::report::{hash_f64s, Cfg, Report};
use crate::rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn urnd(is32: bool) -> f64 {
    if is32 {
        5.960464477539063e-8
    } else {
        1.1102230246251565e-16
    }
}
fn lims(is32: bool) -> (f64, f64) {
    if is32 {
        (1e-33, 1e33)
    } else {
        (1e-290, 1e290)
    }
}
pub fn pick_n(r: &mut Rng, thorough: bool, case: u64) -> usize {
    // a few matrices too large for one-byte indices
    if case % 200_000 == 77 && !cfg!(miri) {
        return 300;
    }
    // weight small sizes; every size still appears
    if r.chance(0.6) {
        LSIZES[r.below(LSIZES.len().min(8))]
    } else if thorough || r.chance(0.3) {
        *r.pick(LSIZES)
    } else {
        LSIZES[r.below(LSIZES.len().min(14))]
    }
}
pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}
pub fn show(m: &[f64], n: usize) -> String {
    if n > 6 {
        return format!("({n}x{n}, regenerate from the case number)");
    }
    (0..n)
        .map(|i| format!("[{}]", (0..n).map(|j| format!("{:e}", m[i * n + j])).collect::<Vec<_>>().join(", ")))
        .collect::<Vec<_>>()
        .join(" ")
}
fn gen(r: &mut Rng, thorough: bool, case: u64) -> (bool, Mat) {
    let is32 = r.chance(0.4);
    let n = pick_n(r, thorough, case);
    let m = if r.chance(0.4) { matgen::exact(r, n, is32, false) } else { matgen::general(r, n, is32) };
    (is32, m)
}
fn gen_b(r: &mut Rng, m: &Mat, is32: bool) -> Vec<f64> {
    let n = m.n;
    let mut b = vec![0.0; n];
    match r.below(6) {
        0 => b[r.below(n)] = 1.0,
        1 => {
            // b = A * ones-like vector: smooth solution
            for i in 0..n {
                for j in 0..n {
                    b[i] += m.a[i * n + j] * (1.0 + (j % 3) as f64);
                }
            }
        }
        2 => {
            for v in b.iter_mut() {
                *v = if r.chance(0.5) { r.sym() * 10f64.powi(r.range(-5, 5) as i32) } else { 0.0 }
            }
        }
        _ => {
            for v in b.iter_mut() {
                *v = r.sym()
            }
        }
    }
    matgen::round_to(is32, &mut b);
    b
}

/// Is (f, perm) a valid partial-pivoting factorization of a? Returns the row permutation found by matching.
/// Ok(perm) with perm[i] = original row that row i of L*U reproduces.
pub fn check_factor(n: usize, a: &[f64], f: &[f64], u: f64, exact: bool, clear: bool) -> Result<Vec<usize>, String> {
    for v in f {
        if !v.is_finite() {
            return Err("factor has a non-finite entry".into());
        }
    }
    for i in 0..n {
        if f[i * n + i] == 0.0 {
            return Err(format!("U[{i}][{i}] is zero after a successful setup"));
        }
        for j in 0..i {
            let v = f[i * n + j].abs();
            if !(v <= 1.0 + 8.0 * u) || (exact && v > 1.0) {
                return Err(format!("multiplier L[{i}][{j}] = {:e} exceeds 1", f[i * n + j]));
            }
        }
    }
    // rows of L*U, with their own rounding bound
    let mut lu = vec![0.0; n * n];
    let mut ab = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            let mut s = DD::default();
            let mut q = 0.0;
            for k in 0..=i.min(j) {
                let l = if k == i { 1.0 } else { f[i * n + k] };
                s.add_prod(l, f[k * n + j]);
                q += (l * f[k * n + j]).abs();
            }
            lu[i * n + j] = s.val();
            ab[i * n + j] = q;
        }
    }
    let fits = |i: usize, r: usize| -> bool {
        (0..n).all(|j| {
            let d = (lu[i * n + j] - a[r * n + j]).abs();
            if exact {
                d == 0.0
            } else {
                d <= 8.0 * (n as f64 + 2.0) * u * ab[i * n + j]
            }
        })
    };
    // bipartite matching (augmenting paths): L*U rows to original rows
    let mut owner = vec![usize::MAX; n];
    fn aug(i: usize, n: usize, ok: &Vec<Vec<bool>>, seen: &mut Vec<bool>, owner: &mut Vec<usize>) -> bool {
        for r in 0..n {
            if ok[i][r] && !seen[r] {
                seen[r] = true;
                if owner[r] == usize::MAX || aug(owner[r], n, ok, seen, owner) {
                    owner[r] = i;
                    return true;
                }
            }
        }
        false
    }
    let ok: Vec<Vec<bool>> = (0..n).map(|i| (0..n).map(|r| fits(i, r)).collect()).collect();
    for i in 0..n {
        let mut seen = vec![false; n];
        if !aug(i, n, &ok, &mut seen, &mut owner) {
            return Err(format!("row {i} of L*U matches no remaining row of A (exact={exact}, clear={clear})"));
        }
    }
    let mut perm = vec![0; n];
    for r in 0..n {
        perm[owner[r]] = r;
    }
    Ok(perm)
}

// ------------------------------------------------------------------ C01
pub fn c01(cfg: &Cfg, case: u64, rep: &mut Report) {
    let mut r = Rng::new(cfg.seed, "C01", case);
    let (is32, m) = gen(&mut r, cfg.thorough(), case);
    let n = m.n;
    let u = urnd(is32);
    rep.evaluations += 1;
    let mut d = new_dense(is32, n);
    let mut f = m.a.clone();
    let mut x: Vec<f64> = (0..n).map(|_| if r.chance(0.1) { f64::NAN } else { r.sym() * 100.0 }).collect();
    if is32 {
        matgen::round_to(true, &mut x)
    }
    let tol = *r.pick(&[0.0, 1e-3, 1e30, f64::NAN]);
    if m.exact {
        let mut b = m.b.clone();
        let out = catch_unwind(AssertUnwindSafe(|| {
            let s = d.setup(&mut f);
            s.map(|_| d.solve(&mut f.clone(), &mut x, &mut b, tol))
        }));
        let ctx = || format!("{} n={n} f32={is32}\nA={}\nb={:?}\nexpected x={:?}", m.kind, show(&m.a, n), &m.b[..n.min(8)], &m.x[..n.min(8)]);
        match out {
            Err(p) => rep.violation(case, format!("panic: {}\n{}", panic_text(p), ctx())),
            Ok(Err(e)) => rep.violation(case, format!("nonsingular system rejected: {}\n{}", e.1, ctx())),
            Ok(Ok(false)) => rep.violation(case, format!("solve returned an error\n{}", ctx())),
            Ok(Ok(true)) => {
                rep.count("exact systems solved");
                if let Some(i) = (0..n).find(|&i| x[i] != m.x[i]) {
                    rep.violation(case, format!("x[{i}] = {:e}, exact solution {:e}\n{}", x[i], m.x[i], ctx()));
                }
                rep.distinct.insert(hash_f64s(m.a.iter().copied()));
            }
        }
        if n <= 4 {
            rep.sample(|| format!("exact {} n={n} f32={is32} A={} x={:?}", m.kind, show(&m.a, n), x));
        }
        rep.count(&format!("n={n}"));
        rep.count(if is32 { "f32" } else { "f64" });
        return;
    }
    let b0 = gen_b(&mut r, &m, is32);
    // reference
    let rf = matgen::ref_lu(n, &m.a, u);
    let (lo, hi) = lims(is32);
    if !rf.ok || rf.lo < lo || rf.hi > hi {
        rep.count("skipped: reference elimination overflows, underflows or meets a zero pivot");
        // still must not panic
        let mut b = b0.clone();
        if let Err(p) = catch_unwind(AssertUnwindSafe(|| {
            if d.setup(&mut f).is_ok() {
                d.solve(&mut f.clone(), &mut x, &mut b, tol);
            }
        })) {
            rep.violation(case, format!("panic: {} ({} n={n} f32={is32})", panic_text(p), m.kind));
        }
        return;
    }
    let mut b = b0.clone();
    let out = catch_unwind(AssertUnwindSafe(|| {
        let s = d.setup(&mut f);
        s.map(|_| d.solve(&mut f.clone(), &mut x, &mut b, tol))
    }));
    let ctx = || format!("{} n={n} f32={is32} clear={}\nA={}\nb={:?}\nx={:?}", m.kind, rf.clear, show(&m.a, n), &b0[..n.min(8)], &x[..n.min(8)]);
    match out {
        Err(p) => return rep.violation(case, format!("panic: {}\n{}", panic_text(p), ctx())),
        Ok(Err(e)) => {
            if rf.clear {
                return rep.violation(case, format!("nonsingular system rejected: {}\n{}", e.1, ctx()));
            }
            rep.count("rejected, pivots at noise level");
            return;
        }
        Ok(Ok(false)) => return rep.violation(case, format!("solve returned an error\n{}", ctx())),
        Ok(Ok(true)) => {}
    }
    let amax = m.a.iter().fold(0f64, |a, v| a.max(v.abs()));
    let bmax = b0.iter().fold(0f64, |a, v| a.max(v.abs()));
    // x must not have left the safe range, else skip (under/overflow in the substitutions)
    let xmax = x.iter().fold(0f64, |a, v| if v.is_finite() { a.max(v.abs()) } else { f64::INFINITY });
    let xref = matgen_solve(n, &rf, &b0);
    let xr = xref.iter().fold(0f64, |a, v| if v.is_finite() { a.max(v.abs()) } else { f64::INFINITY });
    if xr * amax.max(1.0) > hi || (xr > 0.0 && xr * amax.min(1.0) < lo * 1e6) || (bmax > 0.0 && bmax * lo * 1e10 > 1.0) {
        rep.count("skipped: solution outside the safe range");
        return;
    }
    if bmax == 0.0 {
        if xmax != 0.0 {
            rep.violation(case, format!("b = 0 but x != 0\n{}", ctx()));
        }
        rep.count("zero right-hand side");
        return;
    }
    if !xmax.is_finite() {
        return rep.violation(case, format!("non-finite x for a well-scaled nonsingular system\n{}", ctx()));
    }
    // bound vector: |L||U||x| of the produced factorization when it is a valid one, and of an independent one
    let own = check_factor(n, &m.a, &f, u, false, rf.clear).ok().map(|p| matgen::lu_abs_times(n, &p, &f, &f, &x));
    let lux = match (own, rf.clear) {
        (Some(o), false) => {
            rep.count("componentwise bound, validated factorization (pivot ties)");
            o
        }
        (Some(o), true) => {
            rep.count("componentwise bound, validated and independent factorization");
            let q = matgen::lu_abs_times(n, &rf.perm, &rf.l, &rf.u, &x);
            o.iter().zip(&q).map(|(a, b)| a.max(*b)).collect()
        }
        (None, true) => {
            rep.count("componentwise bound, independent factorization");
            matgen::lu_abs_times(n, &rf.perm, &rf.l, &rf.u, &x)
        }
        (None, false) => {
            rep.count("normwise bound");
            let g = rf.u.iter().fold(0f64, |a, v| a.max(v.abs())).max(amax);
            vec![g * n as f64 * n as f64 * xmax; n]
        }
    };
    let tiny = lo * 1e-3;
    for i in 0..n {
        let mut s = DD::new(b0[i]);
        let mut ax = 0.0;
        for j in 0..n {
            s.add_prod(-m.a[i * n + j], x[j]);
            ax += (m.a[i * n + j] * x[j]).abs();
        }
        let res = s.val().abs();
        let bound = 4.0 * (n as f64 + 3.0) * u * (lux[i] + ax + b0[i].abs()) + tiny;
        if !(res <= bound) {
            rep.violation(case, format!("residual row {i}: |b - A x| = {res:e} exceeds the elimination bound {bound:e}\n{}", ctx()));
            return;
        }
    }
    rep.distinct.insert(hash_f64s(m.a.iter().copied().chain(b0.iter().copied())));
    rep.count(&format!("kind {}", m.kind));
    rep.count(&format!("n={n}"));
    rep.count(if is32 { "f32" } else { "f64" });
    rep.count("residuals checked");
}
fn matgen_solve(n: usize, rf: &matgen::RefLu, b: &[f64]) -> Vec<f64> {
    let mut y: Vec<f64> = rf.perm.iter().map(|&p| b[p]).collect();
    for i in 0..n {
        for k in 0..i {
            y[i] -= rf.l[i * n + k] * y[k];
        }
    }
    for i in (0..n).rev() {
        for k in i + 1..n {
            y[i] -= rf.u[i * n + k] * y[k];
        }
        y[i] /= rf.u[i * n + i];
    }
    y
}

// ------------------------------------------------------------------ C02
pub fn c02(cfg: &Cfg, case: u64, rep: &mut Report) {
    let mut r = Rng::new(cfg.seed, "C02", case);
    let (is32, m) = gen(&mut r, cfg.thorough(), case);
    let n = m.n;
    let u = urnd(is32);
    rep.evaluations += 1;
    let rf = matgen::ref_lu(n, &m.a, u);
    let (lo, hi) = lims(is32);
    if !m.exact && (!rf.ok || rf.lo < lo || rf.hi > hi) {
        rep.count("skipped: reference elimination overflows, underflows or meets a zero pivot");
        return;
    }
    let mut d = new_dense(is32, n);
    // a solver object that already factored something else
    if r.chance(0.3) {
        let mut g = matgen::general(&mut r, n, is32).a;
        let _ = catch_unwind(AssertUnwindSafe(|| d.setup(&mut g)));
    }
    let mut f = m.a.clone();
    let out = catch_unwind(AssertUnwindSafe(|| d.setup(&mut f)));
    let ctx = || format!("{} n={n} f32={is32} clear={}\nA={}\nfactor={}", m.kind, rf.clear, show(&m.a, n), show(&f, n));
    match out {
        Err(p) => return rep.violation(case, format!("panic: {}\n{}", panic_text(p), ctx())),
        Ok(Err(_)) => {
            rep.count("setup failed (judged by C03)");
            return;
        }
        Ok(Ok(())) => {}
    }
    match check_factor(n, &m.a, &f, u, m.exact, rf.clear) {
        Err(e) => rep.violation(case, format!("{e}\n{}", ctx())),
        Ok(p) => {
            rep.count("factorizations validated");
            if m.exact {
                rep.count("exact factorizations validated");
            }
            let swaps = (0..n).filter(|&i| p[i] != i).count();
            rep.add("rows moved by pivoting", swaps as u64);
            rep.distinct.insert(hash_f64s(m.a.iter().copied()));
            rep.count(&format!("n={n}"));
            rep.count(&format!("kind {}", m.kind));
            if n <= 3 {
                rep.sample(|| format!("{} A={} factor={} rows={:?}", m.kind, show(&m.a, n), show(&f, n), p));
            }
        }
    }
}

// ------------------------------------------------------------------ C03
pub fn c03(cfg: &Cfg, case: u64, rep: &mut Report) {
    let mut r = Rng::new(cfg.seed, "C03", case);
    let is32 = r.chance(0.4);
    let n = pick_n(&mut r, cfg.thorough(), case);
    rep.evaluations += 1;
    let mut m = match r.below(10) {
        0 => matgen::structural_singular(&mut r, n, is32),
        1 | 2 => matgen::structural_nonsingular(&mut r, n, is32),
        3 | 4 => matgen::exact(&mut r, n, is32, false),
        5 => {
            let mut m = matgen::general(&mut r, n, is32);
            let rf = matgen::ref_lu(n, &m.a, urnd(is32));
            let (lo, hi) = lims(is32);
            if !(rf.ok && rf.clear && rf.lo > lo && rf.hi < hi) {
                rep.count("skipped: pivots not separated from rounding noise");
                return;
            }
            m.exact = true; // verdict is certain
            m
        }
        _ => matgen::exact(&mut r, n, is32, true),
    };
    if m.kind.starts_with("exact") && !m.exact {
        rep.count("skipped: not exactly representable");
        return;
    }
    // zero column / row variants: any column c that is identically zero makes elimination fail at or before c
    let d0 = new_dense(is32, n);
    let mut d = d0;
    if r.chance(0.3) {
        // the verdict must not depend on an earlier factorization
        let sing = r.chance(0.5);
        let mut g = matgen::exact(&mut r, n, is32, sing).a;
        let _ = catch_unwind(AssertUnwindSafe(|| d.setup(&mut g).is_ok()));
    }
    let mut f = m.a.clone();
    let out = catch_unwind(AssertUnwindSafe(|| d.setup(&mut f)));
    let ctx = || format!("{} n={n} f32={is32}\nA={}", m.kind, show(&m.a, n));
    let got = match out {
        Err(p) => return rep.violation(case, format!("panic: {}\n{}", panic_text(p), ctx())),
        Ok(g) => g,
    };
    match (&got, m.singular) {
        (Ok(()), None) => rep.count("nonsingular accepted"),
        (Ok(()), Some(k)) => rep.violation(case, format!("matrix singular at column {k} was accepted\n{}", ctx())),
        (Err((c, _)), None) => rep.violation(case, format!("nonsingular matrix rejected at column {c}\n{}", ctx())),
        (Err((c, text)), Some(k)) => {
            rep.count("singular rejected");
            rep.count(if k == 1 { "at column 1" } else if k == n { "at last column" } else { "at an inner column" });
            if *c != k {
                rep.violation(case, format!("reported column {c}, first dependent column is {k}\n{}", ctx()));
            }
            let nums: Vec<String> = text.split(|ch: char| !ch.is_ascii_digit()).filter(|s| !s.is_empty()).map(String::from).collect();
            if !nums.iter().any(|s| *s == k.to_string()) || nums.iter().any(|s| *s != k.to_string()) {
                rep.violation(case, format!("error text {text:?} does not name column {k}\n{}", ctx()));
            }
        }
    }
    rep.count(&format!("kind {}", m.kind));
    rep.count(&format!("n={n}"));
    rep.distinct.insert(hash_f64s(m.a.iter().copied()));
    if n <= 3 {
        rep.sample(|| format!("{} A={} expected singular={:?} got={:?}", m.kind, show(&m.a, n), m.singular, got));
    }
    m.a.clear();
}

// ------------------------------------------------------------------ C04
fn canon(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| if x.is_nan() { 0x7ff8_0000_0000_0000 } else { x.to_bits() }).collect()
}
pub fn c04(cfg: &Cfg, case: u64, rep: &mut Report) {
    let mut r = Rng::new(cfg.seed, "C04", case);
    let is32 = r.chance(0.4);
    let n = pick_n(&mut r, cfg.thorough(), case);
    rep.evaluations += 1;
    let nops = 4 + r.below(if cfg.thorough() { 40 } else { 16 });
    // one or two live objects; each with the model "last successfully factored matrix"
    struct Obj {
        d: Box<dyn DynDense>,
        orig: Vec<f64>,
        fac: Vec<f64>,
        valid: bool,
    }
    let mut objs = vec![Obj { d: new_dense(is32, n), orig: vec![], fac: vec![], valid: false }];
    let mut log = Vec::<String>::new();
    let mut seenb: Vec<Vec<f64>> = vec![];
    let mut xlast: Vec<f64> = vec![];
    let res = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
        for _ in 0..nops {
            let oi = r.below(objs.len());
            let op = r.below(10);
            if op <= 1 || (!objs[oi].valid && op < 8) {
                let mut m = match r.below(4) {
                    0 => matgen::exact(&mut r, n, is32, false),
                    1 => matgen::structural_nonsingular(&mut r, n, is32),
                    _ => matgen::general(&mut r, n, is32),
                };
                let from = r.below(objs.len());
                if objs[from].orig.len() == n * n && r.chance(0.4) {
                    // a matrix much like one this or another object has seen
                    let mut a = objs[from].orig.clone();
                    let (i, j) = (r.below(n), r.below(n));
                    match r.below(7) {
                        0 => {}
                        1 => a[i * n + j] *= 1.5,
                        2 => a[i * n + j] = 0.0,
                        3 => (0..n).for_each(|k| a.swap(i * n + k, j * n + k)),
                        4 => (0..n).for_each(|k| a.swap(k * n + i, k * n + j)),
                        5 => a.iter_mut().for_each(|v| *v = -*v),
                        _ => a[n * n - 1] += 1.0,
                    }
                    matgen::round_to(is32, &mut a);
                    m.a = a;
                    m.kind = "like an earlier one";
                    rep.count("setups with a matrix like an earlier one");
                }
                let mut f = m.a.clone();
                let got = objs[oi].d.setup(&mut f);
                let mut fresh = new_dense(is32, n);
                let mut f2 = m.a.clone();
                let want = fresh.setup(&mut f2);
                log.push(format!("obj{oi}.setup({}) -> {}", m.kind, if got.is_ok() { "ok" } else { "err" }));
                if got != want || (canon(&f) != canon(&f2)) {
                    return Err(format!("setup result depends on history: {:?} vs fresh {:?}", got, want));
                }
                let o = &mut objs[oi];
                if got.is_ok() {
                    o.orig = m.a;
                    o.fac = f;
                    o.valid = true;
                    rep.count("setups ok");
                } else {
                    o.valid = false;
                    rep.count("setups failed");
                }
            } else if op == 2 {
                // a failing setup on this object; afterwards the object must accept a new matrix
                let mut m = matgen::exact(&mut r, n, is32, true);
                if objs[oi].orig.len() == n * n && r.chance(0.4) {
                    // the last one, made singular
                    m.a = objs[oi].orig.clone();
                    let j = r.below(n);
                    let byrow = r.chance(0.5);
                    (0..n).for_each(|i| m.a[if byrow { j * n + i } else { i * n + j }] = 0.0);
                }
                let mut f = m.a.clone();
                let got = objs[oi].d.setup(&mut f);
                objs[oi].valid = false;
                log.push(format!("obj{oi}.setup(singular) -> {}", if got.is_ok() { "ok" } else { "err" }));
                rep.count("failed setups in histories");
            } else if op == 3 && objs.len() < 3 {
                let c = Obj { d: objs[oi].d.fork(), orig: objs[oi].orig.clone(), fac: objs[oi].fac.clone(), valid: objs[oi].valid };
                objs.push(c);
                log.push(format!("obj{} = clone obj{oi}", objs.len() - 1));
                rep.count("clones");
            } else if objs[oi].valid {
                let reuse = !seenb.is_empty() && r.chance(0.4);
                let b0: Vec<f64> = if reuse {
                    rep.count("repeated right-hand sides");
                    r.pick(&seenb).clone()
                } else {
                    let zeros = *r.pick(&[0.0, 0.2, 0.2, 0.8, 1.0]);
                    let wide = r.chance(0.2);
                    let mut b: Vec<f64> = (0..n)
                        .map(|_| {
                            if r.chance(zeros) {
                                if r.chance(0.1) { -0.0 } else { 0.0 }
                            } else if r.chance(0.02) {
                                *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN])
                            } else if wide {
                                r.sym() * 10f64.powi(r.range(-38, 30) as i32)
                            } else {
                                r.sym() * 10f64.powi(r.range(-3, 3) as i32)
                            }
                        })
                        .collect();
                    matgen::round_to(is32, &mut b);
                    seenb.push(b.clone());
                    b
                };
                let junk = r.below(9);
                let mut x: Vec<f64> = (0..n)
                    .map(|i| match junk {
                        0 => 0.0,
                        1 => f64::NAN,
                        2 => b0[i],
                        3 => -0.0,
                        4 => r.sym() * 10f64.powi(r.range(-40, -14) as i32),
                        5 => xlast.get(i).copied().unwrap_or(1.0),
                        6 => -b0[i],
                        7 => *r.pick(&[0.0, -0.0, 1.0, f64::NAN, f64::INFINITY, 1e-20, 1e-37, 1e30]),
                        _ => r.sym() * 1e6,
                    })
                    .collect();
                matgen::round_to(is32, &mut x);
                let tol = *r.pick(&[0.0, 1.0, -1.0, 1e-300, f64::NAN, f64::INFINITY]);
                let (mut f1, mut b1) = (objs[oi].fac.clone(), b0.clone());
                let ok = objs[oi].d.solve(&mut f1, &mut x, &mut b1, tol);
                log.push(format!("obj{oi}.solve(tol={tol}, x0 junk {junk})"));
                // fresh object, clean x
                let mut fresh = new_dense(is32, n);
                let mut f2 = objs[oi].orig.clone();
                if fresh.setup(&mut f2).is_err() {
                    return Err("fresh solver rejects a matrix that was accepted before".into());
                }
                let mut x2 = vec![0.0; n];
                let mut b2 = b0.clone();
                let ok2 = fresh.solve(&mut f2, &mut x2, &mut b2, 0.0);
                if ok != ok2 || canon(&x) != canon(&x2) {
                    return Err(format!("solve differs from a fresh solver\nb={:?}\nx={:?}\nfresh x={:?}", &b0[..n.min(6)], &x[..n.min(6)], &x2[..n.min(6)]));
                }
                if canon(&f1) != canon(&objs[oi].fac) {
                    return Err("solve modified the factored matrix".into());
                }
                if canon(&b1) != canon(&b0) {
                    return Err("solve modified the right-hand side".into());
                }
                xlast = x;
                rep.count("solves compared with a fresh solver");
            }
        }
        Ok(())
    }));
    match res {
        Ok(Ok(())) => {}
        Ok(Err(e)) => rep.violation(case, format!("{e}\nn={n} f32={is32} history:\n  {}", log.join("\n  "))),
        Err(p) => rep.violation(case, format!("panic: {}\nn={n} f32={is32} history:\n  {}", panic_text(p), log.join("\n  "))),
    }
    let h = log.iter().flat_map(|s| s.bytes()).fold(7u64, |h, b| crate::rng::mix(h ^ b as u64));
    rep.distinct.insert(hash_f64s(objs.iter().flat_map(|o| o.orig.iter().copied())) ^ h);
    rep.sample(|| format!("n={n} f32={is32}: {}", log.join("; ")));
}
