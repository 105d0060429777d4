//! C13: Newton iteration with the real dense solver on systems whose root is known by construction.
use crate::c_linear::panic_text;
use crate::erased::{new_dense, new_newton, Counters, DynDense, DynProblem, E};
use crate::matgen;
use crate::report::{hash_f64s, Cfg, Report};
use crate::rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// F(y) = R ( A d + eps * sum_k c_k (u_k.d) (v_k.d) ),  d = S (y - root), equations permuted, unknowns renumbered.
struct Sys {
    n: usize,
    is32: bool,
    a: Vec<f64>,
    /// quadratic part: rows, dense coefficients q[i][j] d_j d_{(j+1)%n}
    q: Vec<f64>,
    root: Vec<f64>,
    // presentation: equation order and scale, unknown order
    eqp: Vec<usize>,
    eqs: Vec<f64>,
    unp: Vec<usize>,
    // affine right-hand side form (exact mode): F = A y - b
    b: Option<Vec<f64>>,
    // state
    d: Box<dyn DynDense>,
    fac: Vec<f64>,
    first: Option<Vec<f64>>,
    dels: Vec<f64>,
    setups: usize,
    rate_test: bool,
    wnorm: f64,
    cheat: bool,
}
impl Sys {
    fn rnd(&self, x: f64) -> f64 {
        if self.is32 {
            x as f32 as f64
        } else {
            x
        }
    }
    /// unknown vector as presented -> internal deviation
    fn dev(&self, y: &[f64]) -> Vec<f64> {
        (0..self.n).map(|j| y[self.unp[j]] - self.root[j]).collect()
    }
    fn jac(&self, y: &[f64]) -> Vec<f64> {
        let n = self.n;
        let d = self.dev(y);
        let mut jm = vec![0.0; n * n];
        for i in 0..n {
            for j in 0..n {
                let nx = (j + 1) % n;
                jm[self.eqp[i] * n + self.unp[j]] += self.a[i * n + j];
                jm[self.eqp[i] * n + self.unp[j]] += self.q[i * n + j] * d[nx];
                jm[self.eqp[i] * n + self.unp[nx]] += self.q[i * n + j] * d[j];
            }
        }
        for i in 0..n {
            for j in 0..n {
                jm[self.eqp[i] * n + j] *= self.eqs[i];
            }
        }
        for v in jm.iter_mut() {
            *v = self.rnd(*v)
        }
        jm
    }
    fn factor(&mut self, y: &[f64]) -> Result<(), E> {
        let mut jm = self.jac(y);
        if self.cheat {
            for v in jm.iter_mut() {
                *v = -*v
            }
        }
        let r = self.d.setup(&mut jm);
        self.fac = jm;
        r.map_err(|(c, _)| E::Lin(c))
    }
}
impl DynProblem for Sys {
    fn sys(&mut self, y: &[f64], f: &mut [f64]) -> Result<(), E> {
        let n = self.n;
        if let Some(b) = &self.b {
            for i in 0..n {
                let mut s = -b[i];
                for j in 0..n {
                    s += self.a[i * n + j] * y[self.unp[j]];
                }
                f[self.eqp[i]] = s * self.eqs[i];
            }
            return Ok(());
        }
        let d = self.dev(y);
        for i in 0..n {
            let mut s = 0.0;
            for j in 0..n {
                s += self.a[i * n + j] * d[j] + self.q[i * n + j] * d[j] * d[(j + 1) % n];
            }
            f[self.eqp[i]] = self.rnd(s * self.eqs[i]);
        }
        Ok(())
    }
    fn setup(&mut self, y: &[f64], _f: &[f64], jbad: bool) -> Result<bool, E> {
        self.setups += 1;
        if jbad {
            self.cheat = false;
        }
        self.factor(y)?;
        Ok(true)
    }
    fn solve(&mut self, _y: &[f64], b: &mut [f64]) -> Result<(), E> {
        let mut x = vec![f64::NAN; self.n];
        let mut bb = b.to_vec();
        if !self.d.solve(&mut self.fac, &mut x, &mut bb, 0.0) {
            return Err(E::Illegal);
        }
        b.copy_from_slice(&x);
        Ok(())
    }
    fn ctest(&mut self, c: Counters, y: &[f64], del: &[f64], tol: f64, w: &[f64]) -> Result<bool, E> {
        use nonlinear::norm_wrms::NormWRMS;
        if self.first.is_none() {
            self.first = Some(y.to_vec());
        }
        let nrm = nalgebra::DVector::from_column_slice(del).norm_wrms(&nalgebra::DVector::from_column_slice(w));
        if c.cur == 0 {
            self.dels.clear();
        }
        self.dels.push(nrm);
        self.wnorm = nrm;
        if nrm <= tol {
            return Ok(true);
        }
        if self.rate_test && c.cur > 0 {
            let rate = (nrm / self.dels[0]).powf(1.0 / c.cur as f64);
            if rate > 0.9 {
                return Err(E::ConvRec);
            }
        }
        Ok(false)
    }
}

fn inf_norm_inv(n: usize, a: &[f64]) -> Option<f64> {
    let rf = matgen::ref_lu(n, a, 1e-16);
    if !rf.ok {
        return None;
    }
    let mut rows = vec![0.0f64; n];
    for k in 0..n {
        let mut y: Vec<f64> = rf.perm.iter().map(|&p| if p == k { 1.0 } else { 0.0 }).collect();
        for i in 0..n {
            for j in 0..i {
                y[i] -= rf.l[i * n + j] * y[j];
            }
        }
        for i in (0..n).rev() {
            for j in i + 1..n {
                y[i] -= rf.u[i * n + j] * y[j];
            }
            y[i] /= rf.u[i * n + i];
        }
        for i in 0..n {
            rows[i] += y[i].abs();
        }
    }
    Some(rows.into_iter().fold(0.0, f64::max))
}
fn norm_inf(n: usize, a: &[f64]) -> f64 {
    (0..n).map(|i| (0..n).map(|j| a[i * n + j].abs()).sum::<f64>()).fold(0.0, f64::max)
}

pub fn c13(cfg: &Cfg, case: u64, rep: &mut Report) {
    let mut r = Rng::new(cfg.seed, "C13", case);
    rep.evaluations += 1;
    let is32 = r.chance(0.3);
    let n = *r.pick(&[1usize, 2, 2, 3, 3, 4, 5, 6, 8, 12]);
    let out = catch_unwind(AssertUnwindSafe(|| match r.below(10) {
        0 | 1 => affine(&mut r, n, is32, rep),
        2 => singular(&mut r, n, is32, rep),
        3 | 4 => smooth(&mut r, n, is32, true, rep),
        _ => smooth(&mut r, n, is32, false, rep),
    }));
    match out {
        Ok(Ok(())) => {}
        Ok(Err(e)) => rep.violation(case, e),
        Err(p) => rep.violation(case, format!("panic: {}", panic_text(p))),
    }
}
fn blank(n: usize, is32: bool) -> Sys {
    Sys {
        n,
        is32,
        a: vec![],
        q: vec![0.0; n * n],
        root: vec![0.0; n],
        eqp: (0..n).collect(),
        eqs: vec![1.0; n],
        unp: (0..n).collect(),
        b: None,
        d: new_dense(is32, n),
        fac: vec![],
        first: None,
        dels: vec![],
        setups: 0,
        rate_test: false,
        wnorm: 0.0,
        cheat: false,
    }
}
/// exactly representable affine systems: the first correction lands exactly on the root
fn affine(r: &mut Rng, n: usize, is32: bool, rep: &mut Report) -> Result<(), String> {
    let m = loop {
        let m = matgen::exact(r, n, is32, false);
        // moderate scales only, so that A*y0 - b is exact as well
        let amax = m.a.iter().fold(0f64, |a, v| a.max(v.abs()));
        let amin = m.a.iter().fold(f64::INFINITY, |a, v| if *v != 0.0 { a.min(v.abs()) } else { a });
        if m.exact && amax < 1e3 && amin > 0.01 && m.x.iter().all(|x| x.abs() <= 64.0 && *x == x.round()) {
            break m;
        }
    };
    let mut s = blank(n, is32);
    s.a = m.a.clone();
    s.b = Some(m.b.clone());
    let y0: Vec<f64> = (0..n).map(|j| m.x[j] + r.range(-8, 8) as f64).collect();
    let mut w = vec![1.0; n];
    let maxit = 2 + r.below(4);
    let mut nw = new_newton(is32, n, maxit);
    let mut y = vec![f64::NAN; n];
    let res = nw.solve(&mut s, &mut y0.clone(), &mut y, &mut w, 1e-9, true, false);
    let ctx = format!("n={n} f32={is32} A={} b={:?} y0={:?}", crate::c_linear::show(&m.a, n), m.b, y0);
    if res != Ok(()) {
        return Err(format!("affine system: {res:?}\n{ctx}"));
    }
    // exactness can be lost for y0 - x beyond the generator's bound; then it is only near
    let d0: Vec<f64> = (0..n).map(|j| y0[j] - m.x[j]).collect();
    let exact_d = d0.iter().all(|d| d.abs() <= 8.0);
    if exact_d && m.kind == "exact" {
        if s.first.as_ref() != Some(&m.x) {
            return Err(format!("affine system: the first correction gives {:?}, root {:?}\n{ctx}", s.first, m.x));
        }
        if y != m.x || nw.counters().niters > 2 {
            return Err(format!("affine system: y={y:?} after {} iterations, root {:?}\n{ctx}", nw.counters().niters, m.x));
        }
        rep.count("affine systems solved exactly by the first correction");
    }
    rep.distinct.insert(hash_f64s(m.a.iter().chain(y0.iter()).copied()));
    Ok(())
}
fn singular(r: &mut Rng, n: usize, is32: bool, rep: &mut Report) -> Result<(), String> {
    let m = matgen::exact(r, n, is32, true);
    if !m.exact {
        return Ok(());
    }
    let k = m.singular.unwrap();
    let mut s = blank(n, is32);
    s.a = m.a.clone();
    s.b = Some(m.b.clone());
    let mut y = vec![0.0; n];
    let mut nw = new_newton(is32, n, 4);
    let res = nw.solve(&mut s, &mut vec![1.0; n], &mut y, &mut vec![1.0; n], 1e-6, true, false);
    if res != Err(E::Lin(k)) {
        return Err(format!("singular Jacobian at column {k}: {res:?}\nn={n} f32={is32} A={}", crate::c_linear::show(&m.a, n)));
    }
    if s.setups != 1 {
        return Err(format!("singular Jacobian: {} setups", s.setups));
    }
    rep.count("singular jacobians reported");
    rep.distinct.insert(hash_f64s(m.a.iter().copied()));
    Ok(())
}
fn smooth(r: &mut Rng, n: usize, is32: bool, stale: bool, rep: &mut Report) -> Result<(), String> {
    let mut s = blank(n, is32);
    // well conditioned A, rows in random order
    let p = r.perm(n);
    let mut a = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            a[p[i] * n + j] = if i == j { (1.0 + r.unit()) * if r.chance(0.5) { -1.0 } else { 1.0 } } else { 0.6 * r.sym() / n as f64 };
        }
    }
    s.a = a;
    s.root = (0..n).map(|_| (r.sym() * 64.0).round() / 16.0).collect();
    let ia = inf_norm_inv(n, &s.a).ok_or("generator")?;
    let rad = 0.5;
    // chord contraction: |J0^-1| * 2|Q|*(2 rad) <= kappa with |J0^-1| <= ia/(1 - ia*2|Q|rad)
    let linear_only = r.chance(0.15);
    for v in s.q.iter_mut() {
        *v = if linear_only { 0.0 } else { r.sym() };
    }
    // |sum_j q_ij (d_j e_{j+1} + e_j d_{j+1})| <= 2 |Q|_inf |d||e|
    let qn = norm_inf(n, &s.q).max(1e-30);
    let kappa_goal = *r.pick(&[0.02, 0.1, 0.25]);
    let scale = kappa_goal / (4.5 * ia * qn * rad);
    if !linear_only {
        for v in s.q.iter_mut() {
            *v *= scale
        }
    }
    let qn = norm_inf(n, &s.q);
    let j0inv = ia / (1.0 - ia * 2.0 * qn * rad);
    let kappa = j0inv * 2.0 * qn * 2.0 * rad;
    assert!(kappa < 0.5);
    let tol = if is32 { *r.pick(&[1e-2, 1e-3]) } else { *r.pick(&[1e-3, 1e-6, 1e-9]) };
    let y0: Vec<f64> = (0..n).map(|j| s.root[j] + rad * r.sym() * if r.chance(0.1) { 0.0 } else { 1.0 }).map(|v| if is32 { v as f32 as f64 } else { v }).collect();
    let wc = r.chance(0.5);
    let w: Vec<f64> = (0..n).map(|_| if wc { 1.0 } else { (1.0 + 3.0 * r.unit()) as f32 as f64 }).collect();
    let (wmin, wmax) = w.iter().fold((f64::INFINITY, 0f64), |(a, b), v| (a.min(*v), b.max(*v)));
    // |del_k|inf <= kappa^k |del_0|inf, |del_0| <= (1+kappa)|d0|
    let d0 = (0..n).map(|j| (y0[j] - s.root[j]).abs()).fold(0.0, f64::max);
    let mut bound_iters = 1;
    let mut t = (1.0 + kappa) * d0 * wmax;
    let slack = if is32 { 2e-5 } else { 1e-13 };
    while t > tol * 0.999 {
        t = t * (kappa + 1e-3) + slack;
        bound_iters += 1;
        if bound_iters > 200 {
            return Err("generator: no contraction".into());
        }
    }
    s.rate_test = stale;
    s.cheat = stale;
    let maxit = bound_iters + if stale { 3 } else { r.below(3) };
    let (a0, q0, root0) = (s.a.clone(), s.q.clone(), s.root.clone());
    let run = |s: &mut Sys, y0: &[f64], w: &[f64]| -> Result<(Vec<f64>, usize, usize), String> {
        let mut nw = new_newton(is32, n, maxit);
        let mut y = vec![f64::NAN; n];
        let call = !stale;
        if stale {
            // a first factorization that is wrong (wrong sign): the iteration must diverge and be refreshed
            s.factor(y0).map_err(|e| format!("factor {e:?}"))?;
        }
        let res = nw.solve(s, &mut y0.to_vec(), &mut y, &mut w.to_vec(), tol, call, false);
        let c = nw.counters();
        if res != Ok(()) {
            return Err(format!("well-posed system: {res:?} after {} iterations (classical bound {bound_iters}, maxiters {maxit}), corrections {:?}", c.niters, s.dels));
        }
        Ok((y, c.niters, c.nconv))
    };
    let ctx = format!(
        "n={n} f32={is32} kappa={kappa:.3} tol={tol:e} stale={stale} root={root0:?} y0={y0:?} w={w:?}\nA={} Q={}",
        crate::c_linear::show(&a0, n),
        crate::c_linear::show(&q0, n)
    );
    let (y, it, nconv) = run(&mut s, &y0, &w).map_err(|e| format!("{e}\n{ctx}"))?;
    let err = (0..n).map(|j| (y[j] - root0[j]).abs()).fold(0.0, f64::max);
    let ymax = root0.iter().fold(1f64, |a, v| a.max(v.abs()));
    let u = if is32 { 6e-8 } else { 1.2e-16 };
    // last correction <= tol in the weighted norm: |del|inf <= tol sqrt(n)/wmin, error <= kappa/(1-kappa)|del| + rounding
    let ebound = kappa / (1.0 - kappa) * tol * (n as f64).sqrt() / wmin * 1.01 + 400.0 * n as f64 * u * (ymax + 1.0) * ia.max(1.0) * norm_inf(n, &a0).max(1.0);
    // with the wrong Jacobian a tiny first correction may legitimately be accepted
    let decisive = d0 * wmin > 100.0 * tol * (n as f64).sqrt();
    if (!stale || decisive) && !(err <= ebound) {
        return Err(format!("error {err:e} at convergence exceeds {ebound:e}\ny={y:?}\n{ctx}"));
    }
    if !stale {
        if it > bound_iters {
            return Err(format!("{it} iterations, classical bound {bound_iters}\n{ctx}"));
        }
        if linear_only && it > 2 + is32 as usize {
            return Err(format!("affine system needed {it} iterations\n{ctx}"));
        }
        if nconv != 0 {
            return Err(format!("{nconv} convergence failures in a convergent iteration\n{ctx}"));
        }
    } else if decisive {
        if nconv != 1 || s.setups != 1 {
            return Err(format!("wrong Jacobian: expected exactly one refresh, got {nconv} failures and {} setups\n{ctx}", s.setups));
        }
        rep.count("wrong stale jacobian refreshed");
    }
    rep.count(if it > 2 { "systems needing more than two iterations" } else { "systems needing at most two iterations" });
    rep.count(&format!("n={n}"));
    rep.count("roots found");
    rep.distinct.insert(hash_f64s(a0.iter().chain(y0.iter()).copied()));
    // presentation: permute equations, scale them by powers of two, renumber unknowns
    if !stale {
        let borderline = s.dels.iter().any(|d| (d / tol - 1.0).abs() < if is32 { 0.05 } else { 1e-4 }) || tol < 1e4 * u;
        let mut s2 = blank(n, is32);
        s2.a = a0.clone();
        s2.q = q0.clone();
        s2.root = root0.clone();
        s2.eqp = r.perm(n);
        s2.unp = r.perm(n);
        // partial pivoting is only stable relative to the row scaling it is given: keep the ratio small and account for it
        let se = if is32 { 1 } else { 3 };
        s2.eqs = (0..n).map(|_| 2f64.powi(r.range(-se, se) as i32)).collect();
        let ratio = 4f64.powi(se as i32);
        let mut y02 = vec![0.0; n];
        let mut w2 = vec![0.0; n];
        for j in 0..n {
            y02[s2.unp[j]] = y0[j];
            w2[s2.unp[j]] = w[j];
        }
        let (y2, it2, _) = run(&mut s2, &y02, &w2).map_err(|e| format!("after permuting and scaling: {e}\n{ctx}"))?;
        let diff = (0..n).map(|j| (y2[s2.unp[j]] - y[j]).abs()).fold(0.0, f64::max);
        if !borderline {
            if it2 != it {
                return Err(format!("{it} iterations become {it2} after permuting and scaling the equations\n{ctx}"));
            }
            let db = 1000.0 * ratio * n as f64 * u * (ymax + 1.0) * ia.max(1.0) * norm_inf(n, &a0).max(1.0);
            if !(diff <= db) {
                return Err(format!("solution moves by {diff:e} (> {db:e}) after permuting and scaling the equations\n{ctx}"));
            }
            rep.count("presentations compared");
        }
    }
    if n <= 2 {
        rep.sample(|| format!("n={n} kappa={kappa:.3} tol={tol:e} iterations={it} error={err:e} corrections={:?}", s.dels));
    }
    Ok(())
}
