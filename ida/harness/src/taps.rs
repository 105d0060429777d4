//! Recording wrappers around the tolerance control, linear solver and nonlinear solver, with fault injection.
use crate::prob::Prob;
use ida::linear::{Dense, LSolver, LSolverType};
use ida::nonlinear::{Error as NlsError, NLProblem, NLSolver, Newton};
use ida::tol_control::{TolControl, TolControlSS, TolControlSV};
use ndarray::prelude::*;
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub enum Ev {
    Res { t: f64, y: Vec<f64>, yp: Vec<f64>, r: Vec<f64> },
    Jac { t: f64, cj: f64, y: Vec<f64>, yp: Vec<f64>, r: Vec<f64>, zeroed: bool, a: Vec<Vec<f64>> },
    Root { t: f64, y: Vec<f64>, yp: Vec<f64>, g: Vec<f64> },
    Ewt { y: Vec<f64>, w: Vec<f64> },
    LsSetup { a: Vec<Vec<f64>>, ok: bool },
    LsSolve { b: Vec<f64>, x: Vec<f64>, ok: bool },
    NlsBegin { y0: Vec<f64>, w: Vec<f64>, tol: f64, call_lsetup: bool },
    /// residual evaluation requested by the nonlinear solver at correction y
    Sys { y: Vec<f64>, f: Vec<f64>, ok: bool },
    LSetup { jbad: bool, ok: Result<bool, String> },
    LSolve { b: Vec<f64>, x: Vec<f64>, ok: bool },
    CTest { m: usize, del: Vec<f64>, w: Vec<f64>, tol: f64, res: Result<bool, String> },
    NlsEnd { y: Vec<f64>, err: Option<String>, injected: bool },
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// nonlinear solve calls (counted over the run) that fail with a recoverable convergence failure
    pub nls_fail: Vec<usize>,
    /// fail every solve from this one on
    pub nls_fail_from: Option<usize>,
    /// run the real solver before failing
    pub nls_after: bool,
    /// nonlinear solves whose correction is made large afterwards, so that the error test fails
    pub err_fail: Vec<usize>,
    pub err_fail_from: Option<usize>,
    /// linear setups that report a singular matrix
    pub ls_fail: Vec<usize>,
    /// linear solves that report an error, and whether all do from one on
    pub lsolve_fail: Vec<usize>,
    pub lsolve_fail_from: Option<usize>,
    /// what a failing linear solve leaves in x: 0 nothing, 1 NaN, 2 something large, 3 something small, 4 half the solution
    pub lsolve_leaves: usize,
    pub lsolve_calls: usize,
    /// weight multiplier applied from this ewt call on
    pub ewt_scale: Option<(usize, f64)>,
    /// only this component's
    pub ewt_comp: Option<usize>,
    /// residual evaluations that return a value that is not finite: which, in which component (n: all), and the value
    pub res_bad: Vec<(usize, usize, f64)>,
    /// from this time on (in the given direction) all do
    pub res_edge: Option<(f64, f64)>,
    pub res_calls: usize,
    /// Jacobian evaluations with NaN: which, and the entry (row, column; n: all)
    pub jac_bad: Vec<(usize, usize, usize)>,
    pub jac_calls: usize,
    pub nls_calls: usize,
    pub ls_calls: usize,
    pub ewt_calls: usize,
}

thread_local! {
    pub static LOG: RefCell<Vec<Ev>> = RefCell::new(Vec::new());
    pub static PLAN: RefCell<Plan> = RefCell::new(Plan::default());
}
/// callbacks allowed in one call; the most a call can legitimately need is a small part of this
pub const BUDGET: usize = 400_000;
pub fn log(e: Ev) {
    let n = LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.push(e);
        l.len()
    });
    if n > BUDGET {
        panic!("the call does not return: {} callbacks so far", n);
    }
}
fn v<S: ndarray::Data<Elem = f64>, D: Dimension>(a: &ArrayBase<S, D>) -> Vec<f64> {
    a.iter().cloned().collect()
}

#[derive(Clone, Debug)]
pub enum TapTol {
    SS(TolControlSS<f64>),
    SV(TolControlSV<f64>),
}
impl TolControl<f64> for TapTol {
    fn ewt_set<S1, S2>(&self, ycur: ArrayBase<S1, Ix1>, mut ewt: ArrayBase<S2, Ix1>)
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::DataMut<Elem = f64>,
    {
        match self {
            TapTol::SS(t) => t.ewt_set(ycur.view(), ewt.view_mut()),
            TapTol::SV(t) => t.ewt_set(ycur.view(), ewt.view_mut()),
        }
        PLAN.with(|p| {
            let mut p = p.borrow_mut();
            p.ewt_calls += 1;
            if let Some((from, f)) = p.ewt_scale {
                if p.ewt_calls > from {
                    for (i, w) in ewt.iter_mut().enumerate() {
                        if p.ewt_comp.map_or(true, |c| c == i) {
                            *w *= f;
                        }
                    }
                }
            }
        });
        log(Ev::Ewt { y: v(&ycur), w: v(&ewt) });
    }
}

#[derive(Clone, Debug)]
pub struct TapLS(Dense<f64>);
impl LSolver<f64> for TapLS {
    fn new(size: usize) -> Self {
        TapLS(Dense::new(size))
    }
    fn get_type(&self) -> LSolverType {
        self.0.get_type()
    }
    fn setup<S1>(&mut self, mut mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = f64>,
    {
        let n = mat_a.shape()[0];
        let a = (0..n).map(|i| (0..n).map(|j| mat_a[[i, j]]).collect()).collect();
        let fail = PLAN.with(|p| {
            let mut p = p.borrow_mut();
            p.ls_calls += 1;
            p.ls_fail.contains(&(p.ls_calls - 1))
        });
        let r = if fail {
            Err(failure::Error::from(ida::linear::Error::LUFactFail { col: 1 }))
        } else {
            self.0.setup(mat_a.view_mut())
        };
        log(Ev::LsSetup { a, ok: r.is_ok() });
        r
    }
    fn solve<S1, S2, S3>(&self, mat_a: ArrayBase<S1, Ix2>, mut x: ArrayBase<S2, Ix1>, b: ArrayBase<S3, Ix1>, tol: f64) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::DataMut<Elem = f64>,
        S3: ndarray::Data<Elem = f64>,
    {
        let fail = PLAN.with(|p| {
            let mut p = p.borrow_mut();
            let k = p.lsolve_calls;
            p.lsolve_calls += 1;
            if p.lsolve_fail.contains(&k) || p.lsolve_fail_from.map_or(false, |f| k >= f) {
                Some(p.lsolve_leaves)
            } else {
                None
            }
        });
        let r = match fail {
            None => self.0.solve(mat_a, x.view_mut(), b.view(), tol),
            Some(how) => {
                match how {
                    1 => x.fill(f64::NAN),
                    2 => x.fill(1e10),
                    3 => x.fill(1e-30),
                    4 => {
                        let _ = self.0.solve(mat_a, x.view_mut(), b.view(), tol);
                        x.mapv_inplace(|v| 0.5 * v);
                    }
                    _ => {}
                }
                Err(failure::err_msg("the linear solver did not converge"))
            }
        };
        log(Ev::LsSolve { b: v(&b), x: v(&x), ok: r.is_ok() });
        r
    }
}

struct TapProblem<'a, T>(&'a mut T);
impl<'a, T: NLProblem<Prob>> NLProblem<Prob> for TapProblem<'a, T> {
    fn sys<S1, S2>(&mut self, ycor: ArrayBase<S1, Ix1>, mut res: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::DataMut<Elem = f64>,
    {
        let r = self.0.sys(ycor.view(), res.view_mut());
        log(Ev::Sys { y: v(&ycor), f: v(&res), ok: r.is_ok() });
        r
    }
    fn setup<S1, S2>(&mut self, ycor: ArrayBase<S1, Ix1>, res: ArrayBase<S2, Ix1>, jbad: bool) -> Result<bool, failure::Error>
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::Data<Elem = f64>,
    {
        let r = self.0.setup(ycor, res, jbad);
        log(Ev::LSetup { jbad, ok: r.as_ref().map(|b| *b).map_err(|e| format!("{:?}", e)) });
        r
    }
    fn solve<S1, S2>(&mut self, ycor: ArrayBase<S1, Ix1>, mut delta: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::DataMut<Elem = f64>,
    {
        let b = v(&delta);
        let r = self.0.solve(ycor, delta.view_mut());
        log(Ev::LSolve { b, x: v(&delta), ok: r.is_ok() });
        r
    }
    fn ctest<S1, S2, S3, NLS>(&mut self, solver: &NLS, y: ArrayBase<S1, Ix1>, del: ArrayBase<S2, Ix1>, tol: f64, ewt: ArrayBase<S3, Ix1>) -> Result<bool, failure::Error>
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::Data<Elem = f64>,
        S3: ndarray::Data<Elem = f64>,
        NLS: NLSolver<Prob>,
    {
        let (d, w) = (v(&del), v(&ewt));
        let r = self.0.ctest(solver, y, del, tol, ewt);
        log(Ev::CTest { m: solver.get_cur_iter(), del: d, w, tol, res: r.as_ref().map(|b| *b).map_err(|e| format!("{:?}", e)) });
        r
    }
}

#[derive(Clone, Debug)]
pub struct TapNLS(Newton<Prob>);
impl NLSolver<Prob> for TapNLS {
    fn new(size: usize, maxiters: usize) -> Self {
        TapNLS(Newton::new(size, maxiters))
    }
    fn setup<S1>(&mut self, y: &mut ArrayBase<S1, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = f64>,
    {
        self.0.setup(y)
    }
    fn solve<NLP, S1, S2, S3>(&mut self, problem: &mut NLP, y0: ArrayBase<S1, Ix1>, mut y: ArrayBase<S2, Ix1>, w: ArrayBase<S3, Ix1>, tol: f64, call_lsetup: bool) -> Result<(), failure::Error>
    where
        NLP: NLProblem<Prob>,
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::DataMut<Elem = f64>,
        S3: ndarray::Data<Elem = f64>,
    {
        log(Ev::NlsBegin { y0: v(&y0), w: v(&w), tol, call_lsetup });
        let (fail, after, grow, by) = PLAN.with(|p| {
            let mut p = p.borrow_mut();
            let k = p.nls_calls;
            p.nls_calls += 1;
            (
                p.nls_fail.contains(&k) || p.nls_fail_from.map_or(false, |f| k >= f),
                p.nls_after,
                p.err_fail.contains(&k) || p.err_fail_from.map_or(false, |f| k >= f),
                // for good: large enough to fail after many step reductions, which shrink the error coefficient
                if p.err_fail_from.map_or(false, |f| k >= f) { 1.0e12 } else { 1.0e3 },
            )
        });
        let mut p = TapProblem(problem);
        if fail && !after {
            // one residual evaluation, as any solver would make, then give up
            let mut f = Array1::<f64>::zeros(y0.len());
            let _ = p.sys(y0.view(), f.view_mut());
            log(Ev::NlsEnd { y: v(&y), err: Some("ConvergenceRecover".into()), injected: true });
            return Err(failure::Error::from(NlsError::ConvergenceRecover {}));
        }
        let mut r = self.0.solve(&mut p, y0, y.view_mut(), w.view(), tol, call_lsetup);
        if fail {
            r = Err(failure::Error::from(NlsError::ConvergenceRecover {}));
        }
        if grow && r.is_ok() {
            for (y, w) in y.iter_mut().zip(w.iter()) {
                *y += by / *w;
            }
        }
        log(Ev::NlsEnd { y: v(&y), err: r.as_ref().err().map(|e| format!("{:?}", e)), injected: fail || grow });
        r
    }
    fn get_num_iters(&self) -> usize {
        self.0.get_num_iters()
    }
    fn get_cur_iter(&self) -> usize {
        self.0.get_cur_iter()
    }
    fn get_num_conv_fails(&self) -> usize {
        self.0.get_num_conv_fails()
    }
}
