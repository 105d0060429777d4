//! Added to the copy of the integrator by the verification harness: read and set private state.
use crate::linear::LSolver;
use crate::nonlinear::NLSolver;
use crate::tol_control::TolControl;
use crate::traits::IdaProblem;
use crate::Ida;
use ndarray::prelude::*;

/// Integrator state between two calls.
#[derive(Clone, Debug)]
pub struct Snap {
    pub phi: Vec<Vec<f64>>,
    pub psi: Vec<f64>,
    pub alpha: Vec<f64>,
    pub beta: Vec<f64>,
    pub sigma: Vec<f64>,
    pub gamma: Vec<f64>,
    pub kk: usize,
    pub kused: usize,
    pub knew: usize,
    pub phase: usize,
    pub ns: usize,
    pub hh: f64,
    pub hused: f64,
    pub rr: f64,
    pub tn: f64,
    pub tretlast: f64,
    pub cj: f64,
    pub cjlast: f64,
    pub cjold: f64,
    pub cjratio: f64,
    pub ss: f64,
    pub nst: usize,
    pub ee: Vec<f64>,
    pub ewt: Vec<f64>,
    pub tstop: Option<f64>,
    pub irfnd: bool,
}

impl<P, LS, NLS, TolC> Ida<P, LS, NLS, TolC>
where
    P: IdaProblem<Scalar = f64>,
    LS: LSolver<f64>,
    NLS: NLSolver<P>,
    TolC: TolControl<f64>,
{
    pub fn vh_snap(&self) -> Snap {
        Snap {
            phi: (0..self.ida_phi.shape()[0]).map(|i| self.ida_phi.index_axis(Axis(0), i).to_vec()).collect(),
            psi: self.ida_psi.to_vec(),
            alpha: self.ida_alpha.to_vec(),
            beta: self.ida_beta.to_vec(),
            sigma: self.ida_sigma.to_vec(),
            gamma: self.ida_gamma.to_vec(),
            kk: self.ida_kk,
            kused: self.ida_kused,
            knew: self.ida_knew,
            phase: self.ida_phase,
            ns: self.ida_ns,
            hh: self.ida_hh,
            hused: self.ida_hused,
            rr: self.ida_rr,
            tn: self.nlp.ida_tn,
            tretlast: self.ida_tretlast,
            cj: self.nlp.lp.ida_cj,
            cjlast: self.ida_cjlast,
            cjold: self.nlp.lp.ida_cjold,
            cjratio: self.nlp.lp.ida_cjratio,
            ss: self.nlp.ida_ss,
            nst: self.counters.ida_nst,
            ee: self.ida_ee.to_vec(),
            ewt: self.nlp.ida_ewt.to_vec(),
            tstop: self.ida_tstop,
            irfnd: self.ida_irfnd,
        }
    }
    pub fn vh_set_tstop(&mut self, t: Option<f64>) {
        self.ida_tstop = t;
    }
    pub fn vh_set_hmax(&mut self, hmax: f64) {
        self.ida_hmax_inv = 1.0 / hmax;
    }
    pub fn vh_set_hin(&mut self, h: f64) {
        self.ida_hin = h;
    }
    pub fn vh_set_maxord(&mut self, m: usize) {
        self.ida_maxord = m;
    }
    pub fn vh_set_mxstep(&mut self, m: u64) {
        self.ida_mxstep = m;
    }
    pub fn vh_set_suppressalg(&mut self, id: &[bool]) {
        self.ida_suppressalg = true;
        for (i, b) in id.iter().enumerate() {
            self.ida_id[i] = *b;
        }
    }
    pub fn vh_set_rootdir(&mut self, i: usize, d: u8) {
        self.ida_rootdir[i] = d;
    }
}
