//! One integration under observation: every call is recorded with the state before and after it and all callbacks in between.
use crate::prob::{Prob, Spec};
use crate::taps::*;
use ida::tol_control::{TolControlSS, TolControlSV};
use ida::{Ida, IdaSolveStatus, IdaTask};
use ndarray::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Tol {
    pub rtol: f64,
    pub atol: Vec<f64>,
    pub scalar: bool,
}
impl Tol {
    pub fn ss(rtol: f64, atol: f64) -> Tol {
        Tol { rtol, atol: vec![atol], scalar: true }
    }
    pub fn sv(rtol: f64, atol: Vec<f64>) -> Tol {
        Tol { rtol, atol, scalar: false }
    }
    pub fn at(&self, i: usize) -> f64 {
        if self.scalar {
            self.atol[0]
        } else {
            self.atol[i]
        }
    }
    pub fn scaled(&self, f: f64) -> Tol {
        Tol { rtol: self.rtol * f, atol: self.atol.iter().map(|a| a * f).collect(), scalar: self.scalar }
    }
    pub fn weight(&self, i: usize, y: f64) -> f64 {
        1.0 / (self.rtol * y.abs() + self.at(i))
    }
    pub fn tap(&self) -> TapTol {
        if self.scalar {
            TapTol::SS(TolControlSS::new(self.rtol, self.atol[0]))
        } else {
            TapTol::SV(TolControlSV::new(self.rtol, Array1::from_vec(self.atol.clone())))
        }
    }
}

#[derive(Clone, Debug)]
pub struct Pub {
    pub tn: f64,
    pub hused: f64,
    pub hh: f64,
    pub h0u: f64,
    pub kused: usize,
    pub kk: usize,
    pub nst: usize,
    pub nre: usize,
    pub nsetups: usize,
    pub netf: usize,
    pub nje: usize,
    pub nni: usize,
    pub ncfn: usize,
    pub nge: usize,
    pub y: Vec<f64>,
    pub yp: Vec<f64>,
    pub roots: Vec<f64>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Success,
    TStop,
    Root,
    Continue,
    Err(String),
    Panic(String),
}
impl Out {
    pub fn ok(&self) -> bool {
        !matches!(self, Out::Err(_) | Out::Panic(_))
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub tout: f64,
    pub one: bool,
    pub out: Out,
    pub tret: f64,
    pub before: Pub,
    pub after: Pub,
    pub evs: Vec<Ev>,
}

pub struct Sim {
    pub ida: Ida<Prob, TapLS, TapNLS, TapTol>,
    pub spec: Rc<Spec>,
    pub tol: Tol,
    pub plan: Plan,
    pub y0: Vec<f64>,
    pub yp0: Vec<f64>,
    pub panicked: bool,
    /// sum over all calls of the recorded events by kind
    pub total: Totals,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Totals {
    pub res: usize,
    pub jac: usize,
    pub root: usize,
    pub lsetup: usize,
    pub lsolve: usize,
    pub lssetup: usize,
    pub nls: usize,
}
impl Totals {
    pub fn add(&mut self, evs: &[Ev]) {
        for e in evs {
            match e {
                Ev::Res { .. } => self.res += 1,
                Ev::Jac { .. } => self.jac += 1,
                Ev::Root { .. } => self.root += 1,
                Ev::LSetup { .. } => self.lsetup += 1,
                Ev::LsSetup { .. } => self.lssetup += 1,
                Ev::LSolve { .. } => self.lsolve += 1,
                Ev::NlsBegin { .. } => self.nls += 1,
                _ => {}
            }
        }
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

impl Sim {
    pub fn new(spec: Rc<Spec>, tol: Tol, plan: Plan) -> Sim {
        let (y0, yp0) = spec.initial();
        Sim::with(spec, tol, plan, y0, yp0)
    }
    pub fn with(spec: Rc<Spec>, tol: Tol, plan: Plan, y0: Vec<f64>, yp0: Vec<f64>) -> Sim {
        let ida = Ida::new(Prob(spec.clone()), Array1::from_vec(y0.clone()), Array1::from_vec(yp0.clone()), tol.tap());
        Sim { ida, spec, tol, plan, y0, yp0, panicked: false, total: Totals::default() }
    }
    fn enter(&mut self) {
        PLAN.with(|p| std::mem::swap(&mut *p.borrow_mut(), &mut self.plan));
        LOG.with(|l| l.borrow_mut().clear());
    }
    fn leave(&mut self) -> Vec<Ev> {
        PLAN.with(|p| std::mem::swap(&mut *p.borrow_mut(), &mut self.plan));
        LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
    }
    pub fn public(&self) -> Pub {
        let i = &self.ida;
        Pub {
            tn: i.get_current_time(),
            hused: i.get_last_step(),
            hh: i.get_current_setp(),
            h0u: i.get_actual_init_step(),
            kused: i.get_last_order(),
            kk: i.get_current_order(),
            nst: i.get_num_steps(),
            nre: i.get_num_res_evals(),
            nsetups: i.get_num_lin_solv_setups(),
            netf: i.get_num_err_test_fails(),
            nje: i.get_num_jac_evals(),
            nni: i.get_num_nonlin_solv_iters(),
            ncfn: i.get_num_nonlin_solv_conv_fails(),
            nge: i.get_num_g_evals(),
            y: i.get_yy().iter().cloned().collect(),
            yp: i.get_yp().iter().cloned().collect(),
            roots: i.get_root_info().iter().cloned().collect(),
        }
    }
    pub fn solve(&mut self, tout: f64, one: bool) -> Call {
        let before = self.public();
        self.enter();
        let mut tret = f64::NAN;
        let ida = &mut self.ida;
        let r = catch_unwind(AssertUnwindSafe(|| ida.solve(tout, &mut tret, if one { IdaTask::OneStep } else { IdaTask::Normal })));
        let evs = self.leave();
        self.total.add(&evs);
        let out = match r {
            Ok(Ok(IdaSolveStatus::Success)) => Out::Success,
            Ok(Ok(IdaSolveStatus::TStop)) => Out::TStop,
            Ok(Ok(IdaSolveStatus::Root)) => Out::Root,
            Ok(Ok(IdaSolveStatus::ContinueSteps)) => Out::Continue,
            Ok(Err(e)) => Out::Err(format!("{:?}", e)),
            Err(p) => {
                self.panicked = true;
                Out::Panic(panic_text(p))
            }
        };
        if let Ok(m) = std::env::var("VERIF_TRACE") {
            // VERIF_TRACE=from internal step number
            let m: usize = m.parse().unwrap_or(0);
            let p = self.public();
            if p.nst >= m {
                println!("CALL {:?} tout {:e} one {} -> {:?} tret {:e} tn {:.17e} hused {:e} kused {} hh {:e} kk {} nst {}", before.tn, tout, one, out, tret, p.tn, p.hused, p.kused, p.hh, p.kk, p.nst);
                for a in attempts(&evs) {
                    println!("  attempt t={:.17e} setup={} err={:?} ee={:?} norm {:e}", a.t, a.call_lsetup, a.err, a.ee, wrms(&a.ee, &a.w));
                }
            }
        }
        Call { tout, one, out, tret, before, after: self.public(), evs }
    }
    /// get_solution, then y and y'
    pub fn at(&mut self, t: f64) -> Result<(Vec<f64>, Vec<f64>), String> {
        self.enter();
        let ida = &mut self.ida;
        let r = catch_unwind(AssertUnwindSafe(|| ida.get_solution(t)));
        let evs = self.leave();
        self.total.add(&evs);
        match r {
            Ok(Ok(())) => Ok((self.ida.get_yy().iter().cloned().collect(), self.ida.get_yp().iter().cloned().collect())),
            Ok(Err(e)) => Err(format!("error: {:?}", e)),
            Err(p) => Err(format!("panic: {}", panic_text(p))),
        }
    }
    pub fn dky(&mut self, t: f64, k: usize) -> Result<Vec<f64>, String> {
        let mut d = Array1::<f64>::zeros(self.spec.n);
        let ida = &mut self.ida;
        match catch_unwind(AssertUnwindSafe(|| ida.get_dky(t, k, &mut d))) {
            Ok(Ok(())) => Ok(d.to_vec()),
            Ok(Err(e)) => Err(format!("error: {:?}", e)),
            Err(p) => Err(format!("panic: {}", panic_text(p))),
        }
    }
}

/// One attempt at a step, from the event log.
#[derive(Clone, Debug)]
pub struct Attempt {
    /// index range of events in the call
    pub lo: usize,
    pub hi: usize,
    pub t: f64,
    /// arguments of the first residual evaluation: the prediction
    pub ypred: Vec<f64>,
    pub yppred: Vec<f64>,
    pub w: Vec<f64>,
    pub tol: f64,
    pub call_lsetup: bool,
    pub y0: Vec<f64>,
    pub ee: Vec<f64>,
    pub err: Option<String>,
    pub injected: bool,
    /// error weights of the step as last set by the tolerance control
    pub ewt: Option<Vec<f64>>,
}

pub fn attempts(evs: &[Ev]) -> Vec<Attempt> {
    let mut v: Vec<Attempt> = vec![];
    let mut open = false;
    let mut last_ewt = None;
    for (i, e) in evs.iter().enumerate() {
        match e {
            Ev::Ewt { w, .. } => last_ewt = Some(w.clone()),
            Ev::NlsBegin { y0, w, tol, call_lsetup } => {
                v.push(Attempt {
                    lo: i,
                    hi: evs.len(),
                    t: f64::NAN,
                    ypred: vec![],
                    yppred: vec![],
                    w: w.clone(),
                    tol: *tol,
                    call_lsetup: *call_lsetup,
                    y0: y0.clone(),
                    ee: vec![],
                    err: Some("did not end".into()),
                    injected: false,
                    ewt: last_ewt.clone(),
                });
                open = true;
            }
            Ev::Res { t, y, yp, .. } if open => {
                let a = v.last_mut().unwrap();
                if a.ypred.is_empty() {
                    a.t = *t;
                    a.ypred = y.clone();
                    a.yppred = yp.clone();
                }
            }
            Ev::NlsEnd { y, err, injected } if open => {
                let a = v.last_mut().unwrap();
                a.hi = i;
                a.ee = y.clone();
                a.err = err.clone();
                a.injected = *injected;
                open = false;
            }
            _ => {}
        }
    }
    v
}

pub fn wrms(x: &[f64], w: &[f64]) -> f64 {
    (x.iter().zip(w).map(|(x, w)| (x * w) * (x * w)).sum::<f64>() / x.len() as f64).sqrt()
}
