//! C05: hostile values, dimensions and layouts. The same workload runs natively with debug assertions,
//! under AddressSanitizer, and (smaller) under Miri, whose reports are the oracle for undefined behaviour.
use crate::c_linear::panic_text;
use crate::erased::{new_newton, Counters, DynProblem, E};
use crate::fl::Fl;
use crate::report::{Cfg, Report};
use crate::rng::Rng;
use linear::{Dense, LSolver};
use nalgebra::{Const, DMatrix, DVector, SMatrix, SVector};
use nonlinear::norm_wrms::NormWRMS;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn canary<T: Fl>() -> T {
    T::of(-1234.5)
}
fn hostile<T: Fl>(r: &mut Rng, style: usize) -> T {
    let tiny = if T::U > 1e-10 { 1e-42 } else { 5e-321 };
    let huge = if T::U > 1e-10 { 3e38 } else { 1.5e308 };
    match style {
        0 => T::of(r.sym()),
        1 => T::of(*r.pick(&[0.0, -0.0, 1.0, -1.0])),
        2 => T::of(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, 1.0, tiny, -tiny, huge, -huge])),
        3 => T::of(r.sym() * tiny * 4.0),
        4 => T::of(r.sym() * huge),
        5 => T::of(f64::NAN),
        _ => {
            if r.chance(0.1) {
                T::of(*r.pick(&[f64::NAN, f64::INFINITY, tiny, huge]))
            } else {
                T::of(r.sym())
            }
        }
    }
}
fn same<T: Fl>(a: T, b: T) -> bool {
    a.bits() == b.bits() || (a != a && b != b)
}
fn lin<T: Fl, const N: usize>(r: &mut Rng, rep: &mut Report) -> Result<(), String> {
    let style = r.below(7);
    let a = SMatrix::<T, N, N>::from_fn(|_, _| hostile(r, style));
    let mut a = a;
    if r.chance(0.3) {
        let c = r.below(N);
        for i in 0..N {
            a[(i, c)] = T::of(0.0);
        }
    }
    let bstyle = r.below(7);
    let b = SVector::<T, N>::from_fn(|_, _| hostile(r, bstyle));
    let tol = hostile::<T>(r, 2);
    let mk = || <Dense<Const<N>> as LSolver<T, Const<N>>>::new();
    // owned
    let mut d1 = mk();
    let mut f1 = a;
    // a solve before any setup must still be memory safe
    if r.chance(0.2) {
        let mut x = SVector::<T, N>::zeros();
        let _ = d1.solve(&a, &mut x, &b, tol);
        rep.count("solves before setup");
    }
    let r1 = d1.setup(&mut f1).is_ok();
    let mut x1 = SVector::<T, N>::from_fn(|_, _| hostile(r, 5));
    let _ = d1.solve(&f1, &mut x1, &b, tol);
    if !r1 {
        rep.count("solves after a failed setup");
    }
    // strided views into guarded buffers
    let (sr, sc) = (r.below(3), r.below(3));
    let (or, oc) = (r.below(3), r.below(3));
    let rows = or + (N - 1) * (sr + 1) + 1 + r.below(3);
    let cols = oc + (N - 1) * (sc + 1) + 1 + r.below(3);
    let mut big = DMatrix::<T>::from_element(rows, cols, canary());
    for i in 0..N {
        for j in 0..N {
            big[(or + i * (sr + 1), oc + j * (sc + 1))] = a[(i, j)];
        }
    }
    let mut bx = DMatrix::<T>::from_element(rows, 3, canary());
    for i in 0..N {
        bx[(or + i * (sr + 1), 1)] = hostile(r, 5);
    }
    let mut bb = DMatrix::<T>::from_element(rows, 1, canary());
    for i in 0..N {
        bb[(or + i * (sr + 1), 0)] = b[i];
    }
    let mut d2 = mk();
    let r2 = {
        let mut v = big.fixed_view_with_steps_mut::<N, N>((or, oc), (sr, sc));
        d2.setup(&mut v).is_ok()
    };
    if r1 != r2 {
        return Err(format!("verdict differs between an owned matrix ({r1}) and a strided view ({r2})"));
    }
    let after = big.clone();
    {
        let v = big.fixed_view_with_steps_mut::<N, N>((or, oc), (sr, sc));
        let mut xv = bx.fixed_view_with_steps_mut::<N, 1>((or, 1), (sr, 0));
        let bv = bb.fixed_view_with_steps_mut::<N, 1>((or, 0), (sr, 0));
        let _ = d2.solve(&v, &mut xv, &bv, tol);
    }
    for j in 0..cols {
        for i in 0..rows {
            let inside = i >= or && (i - or) % (sr + 1) == 0 && (i - or) / (sr + 1) < N && j >= oc && (j - oc) % (sc + 1) == 0 && (j - oc) / (sc + 1) < N;
            if inside {
                let w = f1[((i - or) / (sr + 1), (j - oc) / (sc + 1))];
                if !same(after[(i, j)], w) {
                    return Err(format!("factor differs between layouts at ({i},{j}): {:?} vs {:?}", after[(i, j)], w));
                }
                if !same(big[(i, j)], w) {
                    return Err(format!("solve changed the factored matrix at ({i},{j})"));
                }
            } else if big[(i, j)] != canary() {
                return Err(format!("stray write to the matrix buffer at ({i},{j}) outside the {N}x{N} view"));
            }
        }
    }
    for j in 0..3 {
        for i in 0..rows {
            let inside = j == 1 && i >= or && (i - or) % (sr + 1) == 0 && (i - or) / (sr + 1) < N;
            if inside {
                if !same(bx[(i, j)], x1[(i - or) / (sr + 1)]) {
                    return Err(format!("solution differs between layouts: {:?} vs {:?}", bx[(i, j)], x1[(i - or) / (sr + 1)]));
                }
            } else if bx[(i, j)] != canary() {
                return Err(format!("stray write to the solution buffer at ({i},{j})"));
            }
        }
    }
    for i in 0..rows {
        let inside = i >= or && (i - or) % (sr + 1) == 0 && (i - or) / (sr + 1) < N;
        let want = if inside { b[(i - or) / (sr + 1)] } else { canary() };
        if !same(bb[(i, 0)], want) {
            return Err(format!("right-hand side buffer changed at {i}"));
        }
    }
    rep.count("linear layouts compared");
    rep.count(&format!("linear n={N}"));
    rep.count(if r1 { "setup accepted" } else { "setup rejected" });
    // contiguous views at the very end of a heap buffer: an access one past the end leaves the allocation
    let mut tail = DMatrix::<T>::from_element(N, N + 1, canary());
    tail.fixed_view_mut::<N, N>(0, 1).copy_from(&a);
    let mut d3 = mk();
    let r3 = d3.setup(&mut tail.fixed_view_mut::<N, N>(0, 1)).is_ok();
    if r3 != r1 || (0..N).any(|i| tail[(i, 0)] != canary()) {
        return Err("contiguous view: verdict differs or stray write".into());
    }
    let mut hx = DVector::<T>::from_element(N, canary());
    let mut hb = DVector::<T>::from_column_slice(b.as_slice());
    {
        let mut xv = hx.fixed_rows_mut::<N>(0);
        let bv = hb.fixed_rows_mut::<N>(0);
        let m = tail.fixed_view_mut::<N, N>(0, 1);
        let _ = d3.solve(&m, &mut xv, &bv, tol);
    }
    if (0..N).any(|i| !same(hx[i], x1[i])) {
        return Err("solution through contiguous views differs".into());
    }
    Ok(())
}
fn norm(r: &mut Rng, rep: &mut Report) -> Result<(), String> {
    let n = 1 + r.below(if cfg!(miri) { 6 } else { 60 });
    let st = r.below(7);
    let x = DVector::<f64>::from_fn(n, |_, _| hostile(r, st));
    let st = r.below(7);
    let w = DVector::<f64>::from_fn(n, |_, _| hostile(r, st));
    let v = x.norm_wrms(&w);
    let mut big = DMatrix::<f64>::from_element(2 * n - 1, 2, 7.0);
    for i in 0..n {
        big[(2 * i, 0)] = x[i];
        big[(2 * i, 1)] = w[i];
    }
    let xv = big.view_with_steps((0, 0), (n, 1), (1, 0));
    let wv = big.view_with_steps((0, 1), (n, 1), (1, 0));
    let v2 = xv.column(0).norm_wrms(&wv.column(0));
    if !same(v, v2) && !crate::c_norm::close(v2, v, n) {
        return Err(format!("norm differs between layouts: {v:e} vs {v2:e}"));
    }
    rep.count("norms on hostile values");
    Ok(())
}
/// A problem that feeds hostile values through the iteration.
struct Noise {
    r: Rng,
    style: usize,
    is32: bool,
    left: usize,
}
impl Noise {
    fn fill(&mut self, v: &mut [f64]) {
        for x in v.iter_mut() {
            *x = if self.is32 { hostile::<f32>(&mut self.r, self.style) as f64 } else { hostile::<f64>(&mut self.r, self.style) };
        }
    }
}
impl DynProblem for Noise {
    fn sys(&mut self, _: &[f64], f: &mut [f64]) -> Result<(), E> {
        self.fill(f);
        Ok(())
    }
    fn setup(&mut self, _: &[f64], _: &[f64], _: bool) -> Result<bool, E> {
        Ok(true)
    }
    fn solve(&mut self, _: &[f64], b: &mut [f64]) -> Result<(), E> {
        self.fill(b);
        Ok(())
    }
    fn ctest(&mut self, _: Counters, y: &[f64], del: &[f64], _: f64, w: &[f64]) -> Result<bool, E> {
        let _ = DVector::from_column_slice(del).norm_wrms(&DVector::from_column_slice(w));
        let _ = y[0];
        self.left = self.left.saturating_sub(1);
        if self.left == 0 || self.r.chance(0.1) {
            return Ok(true);
        }
        if self.r.chance(0.1) {
            return Err(E::ConvRec);
        }
        Ok(false)
    }
}
fn newton(r: &mut Rng, rep: &mut Report) -> Result<(), String> {
    let is32 = r.chance(0.5);
    let n = if cfg!(miri) { 1 + r.below(4) } else { *r.pick(crate::erased::NSIZES) };
    let maxit = *r.pick(&[0usize, 1, 2, 5, 20, usize::MAX]);
    let mut s = new_newton(is32, n, maxit);
    let style = r.below(7);
    let seed = r.u64();
    for k in 0..3 {
        let mk = |r: &mut Rng| -> Vec<f64> { (0..n).map(|_| if is32 { hostile::<f32>(r, style) as f64 } else { hostile::<f64>(r, style) }).collect() };
        let (mut y0, mut w, mut y) = (mk(r), mk(r), mk(r));
        let mut ya = y.clone();
        let call = r.chance(0.7);
        let mut p = Noise { r: Rng::new(seed, "noise", k), style, is32, left: 12 };
        let mut f = s.fork();
        let a = s.solve(&mut p, &mut y0, &mut y, &mut w, 1e-3, call, false);
        let mut p = Noise { r: Rng::new(seed, "noise", k), style, is32, left: 12 };
        let b = f.solve(&mut p, &mut y0, &mut ya, &mut w, 1e-3, call, true);
        if a != b || y.iter().zip(&ya).any(|(p, q)| !same(*p, *q)) {
            return Err(format!("Newton result depends on the layout of y: {a:?} {y:?} vs {b:?} {ya:?}"));
        }
        rep.count("newton layouts compared");
    }
    Ok(())
}
pub fn c05(cfg: &Cfg, case: u64, rep: &mut Report) {
    let mut r = Rng::new(cfg.seed, "C05", case);
    rep.evaluations += 1;
    let kind = r.below(8);
    rep.distinct.insert(r.clone().u64());
    let out = catch_unwind(AssertUnwindSafe(|| match kind {
        0 => norm(&mut r, rep),
        1 => newton(&mut r, rep),
        _ => {
            let is32 = r.chance(0.5);
            macro_rules! go { ($n:expr; $($k:literal)*) => { match $n { $($k => if is32 { lin::<f32, $k>(&mut r, rep) } else { lin::<f64, $k>(&mut r, rep) },)* _ => unreachable!() } } }
            #[cfg(miri)]
            {
                let n = 1 + r.below(4);
                go!(n; 1 2 3 4)
            }
            #[cfg(not(miri))]
            {
                let n = *r.pick(&[1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 16, 31]);
                go!(n; 1 2 3 4 5 6 7 8 16 31)
            }
        }
    }));
    match out {
        Ok(Ok(())) => {}
        Ok(Err(e)) => rep.violation(case, e),
        Err(p) => rep.violation(case, format!("panic: {}", panic_text(p))),
    }
}
