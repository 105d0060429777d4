//! Reference of one internal step: the fixed-leading-coefficient variable-order BDF method of IDA, written from its
//! definitions (step sums, products of ratios), driven by the corrections the nonlinear solver actually returned.
use crate::run::*;
use crate::taps::Ev;

#[derive(Clone, Debug, Default)]
pub struct St {
    pub phi: Vec<Vec<f64>>,
    pub psi: Vec<f64>,
    pub alpha: Vec<f64>,
    pub beta: Vec<f64>,
    pub sigma: Vec<f64>,
    pub gamma: Vec<f64>,
    pub kk: usize,
    pub kused: usize,
    pub phase: usize,
    pub ns: usize,
    pub hh: f64,
    pub hused: f64,
    pub tn: f64,
    pub cj: f64,
    pub cjold: f64,
    pub cjratio: f64,
    pub ss: f64,
    pub nst: usize,
    pub tstop: Option<f64>,
    pub ewt: Vec<f64>,
}

#[derive(Clone, Debug)]
pub struct Env {
    pub maxord: usize,
    pub hmax_inv: f64,
    pub hin: f64,
    /// components taking part in the error test
    pub mask: Option<Vec<bool>>,
}
impl Default for Env {
    fn default() -> Env {
        Env { maxord: 5, hmax_inv: 0.0, hin: 0.0, mask: None }
    }
}

/// Something that does not match, with the properties it breaks.
pub struct Bad(pub &'static [&'static str], pub String);

#[derive(Default, Debug)]
pub struct Seen {
    pub steps: u64,
    pub retries_err: u64,
    pub retries_conv: u64,
    pub first_step_retries: u64,
    pub near: u64,
    pub none: u64,
    pub ended: u64,
    pub raised: u64,
    pub lowered: u64,
    pub orders: [u64; 6],
    pub ctests: u64,
    pub scaled: u64,
    pub lsetup_rule: u64,
    pub clamped: u64,
    pub stops: u64,
}

struct Near;
/// a <= b, unless too close to tell
fn le(a: f64, b: f64) -> Result<bool, Near> {
    if a == 0.0 && b == 0.0 {
        return Ok(true);
    }
    if (a - b).abs() <= 1e-8 * a.abs().max(b.abs()) || a.is_nan() || b.is_nan() {
        return Err(Near);
    }
    Ok(a <= b)
}
fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-10 * scale.abs().max(f64::MIN_POSITIVE) || (a.is_nan() && b.is_nan())
}
fn relclose(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

fn norm(x: &[f64], w: &[f64], mask: &Option<Vec<bool>>) -> f64 {
    let s: f64 = (0..x.len()).filter(|i| mask.as_ref().map_or(true, |m| m[*i])).map(|i| (x[i] * w[i]).powi(2)).sum();
    (s / x.len() as f64).sqrt()
}

struct Coef {
    psi: Vec<f64>,
    alpha: Vec<f64>,
    sigma: Vec<f64>,
    gamma: Vec<f64>,
    beta: Vec<f64>,
    cj: f64,
    ck: f64,
    ns: usize,
}

fn coefs(s: &St) -> Coef {
    let k = s.kk;
    let h = s.hh;
    let mut ns = s.ns;
    if s.hh != s.hused || s.kk != s.kused {
        ns = 0;
    }
    ns = (ns + 1).min(s.kused + 2);
    let (mut psi, mut alpha, mut sigma, mut gamma, mut beta) = (s.psi.clone(), s.alpha.clone(), s.sigma.clone(), s.gamma.clone(), s.beta.clone());
    if k + 1 >= ns {
        psi[0] = h;
        for i in 1..=k {
            psi[i] = s.psi[i - 1] + h;
        }
        for i in 0..=k {
            alpha[i] = if i == 0 { 1.0 } else { h / psi[i] };
            beta[i] = (0..i).map(|j| psi[j] / s.psi[j]).product();
            sigma[i] = (1..=i).map(|j| j as f64 * alpha[j]).product();
            gamma[i] = (0..i).map(|j| alpha[j] / h).sum();
        }
    }
    let alphas: f64 = -(1..=k).map(|i| 1.0 / i as f64).sum::<f64>();
    let alpha0: f64 = -(0..k).map(|i| alpha[i]).sum::<f64>();
    let ck = (alpha[k] + alphas - alpha0).abs().max(alpha[k]);
    Coef { psi, alpha, sigma, gamma, beta, cj: -alphas / h, ck, ns }
}

/// Follow one call of solve in one-step mode. `s` is the state before it; on return it is the predicted state.
/// Returns Ok(true) if the state after the call may be compared.
pub fn follow(s: &mut St, call: &Call, env: &Env, seen: &mut Seen) -> Result<bool, Bad> {
    match follow_(s, call, env, seen) {
        Ok(b) => b,
        Err(Near) => {
            seen.near += 1;
            Ok(false)
        }
    }
}

fn follow_(s: &mut St, call: &Call, env: &Env, seen: &mut Seen) -> Result<Result<bool, Bad>, Near> {
    macro_rules! bad { ($p:expr, $($a:tt)*) => { return Ok(Err(Bad($p, format!($($a)*)))) }; }
    let evs = &call.evs;
    let at = attempts(evs);
    let n = s.phi[0].len();
    let mask = &env.mask;
    if at.is_empty() {
        seen.none += 1;
        return Ok(Ok(false));
    }
    let dir;
    if s.nst == 0 {
        let w = match &at[0].ewt {
            Some(w) => w.clone(),
            None => s.ewt.clone(),
        };
        s.ewt = w.clone();
        let dist = (call.tout - s.tn).abs();
        let mut h = env.hin;
        if h == 0.0 {
            h = 0.001 * dist;
            let yn = norm(&s.phi[1], &w, mask);
            if !le(yn, 2.0 / h)? {
                h = 0.5 / yn;
            }
            if call.tout < s.tn {
                h = -h;
            }
        }
        if !(h.abs() * env.hmax_inv <= 1.0) {
            h /= h.abs() * env.hmax_inv;
        }
        if let Some(ts) = s.tstop {
            if (s.tn + h - ts) * h > 0.0 {
                h = (ts - s.tn) * (1.0 - 4.0 * f64::EPSILON);
            }
        }
        if !relclose(h, call.after.h0u) {
            bad!(&["I09", "I14"], "initial step {:e}, expected {:e}", call.after.h0u, h);
        }
        s.hh = call.after.h0u;
        let hh = s.hh;
        s.phi[1].iter_mut().for_each(|x| *x *= hh);
        s.kk = 1;
        s.kused = 0;
        s.hused = 0.0;
        s.psi[0] = s.hh;
        s.cj = 1.0 / s.hh;
        s.phase = 0;
        s.ns = 0;
    } else {
        if let Some(ts) = s.tstop {
            if (s.tn + s.hh - ts) * s.hh > 0.0 {
                s.hh = (ts - s.tn) * (1.0 - 4.0 * f64::EPSILON);
            }
        }
        // the error weights of this step come from the last accepted solution
        let e = evs.iter().rev().find_map(|e| if let Ev::Ewt { y, w } = e { Some((y, w)) } else { None });
        match e {
            None => bad!(&["I11", "I14"], "no error weights were set for the step from t={:e}", s.tn),
            Some((y, w)) => {
                if y.iter().zip(&s.phi[0]).any(|(a, b)| !close(*a, *b, *b)) {
                    bad!(&["I14"], "error weights computed from {:?}, the accepted solution is {:?}", y, s.phi[0]);
                }
                s.ewt = w.clone();
            }
        }
    }
    dir = s.hh.signum();
    let saved_t = s.tn;
    let (mut ncf, mut nef) = (0, 0);
    let mut knew = s.kk;
    for (ia, a) in at.iter().enumerate() {
        let tags: &'static [&'static str] = if ia == 0 { &["I14"] } else { &["I06", "I14"] };
        let cjlast = s.cj;
        let c = coefs(s);
        s.cj = c.cj;
        let hist = s.phi.clone();
        for i in c.ns..=s.kk {
            if i < s.phi.len() {
                s.phi[i].iter_mut().for_each(|x| *x *= c.beta[i]);
            }
        }
        let mut t = saved_t + s.hh;
        if let Some(ts) = s.tstop {
            if (t - ts) * s.hh > 0.0 {
                t = ts;
                seen.clamped += 1;
            }
        }
        // ---- prediction
        if !close(a.t, t, t.abs() + s.hh.abs() * 1e-3) {
            bad!(tags, "attempt {} of the step from t={:e}: residual evaluated at t={:e}, expected {:e} (h={:e}, order {})", ia + 1, saved_t, a.t, t, s.hh, s.kk);
        }
        if (a.t - saved_t) * dir <= 0.0 && !(a.t == saved_t && s.hh.abs() <= 2.0 * f64::EPSILON * saved_t.abs()) {
            bad!(tags, "attempt {} does not advance: t={:e} from {:e}", ia + 1, a.t, saved_t);
        }
        for i in 0..n {
            let yy: f64 = (0..=s.kk).map(|j| s.phi[j][i]).sum();
            let ys: f64 = (0..=s.kk).map(|j| s.phi[j][i].abs()).sum();
            if !close(yy, a.ypred[i], ys) {
                bad!(tags, "attempt {} at t={:e}: predicted y[{}] = {:e}, expected {:e}", ia + 1, a.t, i, a.ypred[i], yy);
            }
            let yp: f64 = (1..=s.kk).map(|j| c.gamma[j] * s.phi[j][i]).sum();
            let ps: f64 = (1..=s.kk).map(|j| (c.gamma[j] * s.phi[j][i]).abs()).sum();
            if !close(yp, a.yppred[i], ps + 1e-4 * (ys / s.hh.abs())) && !close(yp, a.yppred[i], ps) {
                bad!(tags, "attempt {} at t={:e}: predicted y'[{}] = {:e}, expected {:e}", ia + 1, a.t, i, a.yppred[i], yp);
            }
        }
        if a.y0.iter().any(|x| *x != 0.0) {
            bad!(tags, "the nonlinear solve does not start from the prediction: {:?}", a.y0);
        }
        if a.w.iter().zip(&s.ewt).any(|(x, y)| !relclose(*x, *y)) {
            bad!(&["I13", "I14"], "the nonlinear solve uses weights {:?}, the step's are {:?}", a.w, s.ewt);
        }
        if !relclose(a.tol, 0.33) {
            bad!(&["I13", "I14"], "the nonlinear solve is called with tolerance {:e}", a.tol);
        }
        // ---- Jacobian update rule
        let mut must = false;
        if s.nst == 0 {
            s.cjold = s.cj;
            s.ss = 20.0;
            must = true;
        }
        s.cjratio = s.cj / s.cjold;
        let lo = 0.75 / 1.25;
        if !le(lo, s.cjratio)? || !le(s.cjratio, 1.0 / lo)? {
            must = true;
        }
        if must != a.call_lsetup {
            bad!(tags, "attempt {} at t={:e}: linear setup requested: {}, expected {} (cj ratio {:e}, step {})", ia + 1, a.t, a.call_lsetup, must, s.cjratio, s.nst);
        }
        seen.lsetup_rule += 1;
        if (s.cj - cjlast).abs() > 1e-9 * s.cj.abs() || !cjlast.is_finite() {
            s.ss = 100.0;
        } else if !must && !(s.hh == s.hused && s.kk == s.kused) {
            // equal or not depends on rounding
            return Err(Near);
        }
        // ---- Newton iteration
        let mut oldnrm = f64::NAN;
        let mut ls: Option<(Vec<f64>, Vec<f64>)> = None;
        for e in &evs[a.lo..a.hi] {
            match e {
                Ev::Jac { cj, .. } => {
                    if !relclose(*cj, s.cj) {
                        bad!(&["I07", "I14"], "Jacobian at t={:e} built with cj={:e}, expected {:e}", a.t, cj, s.cj);
                    }
                }
                // also when it failed: the matrix is overwritten either way
                Ev::LSetup { .. } => {
                    s.cjold = s.cj;
                    s.cjratio = 1.0;
                    s.ss = 20.0;
                }
                Ev::LsSolve { b, x, .. } => ls = Some((b.clone(), x.clone())),
                Ev::LSolve { b, x, ok } if *ok => {
                    if let Some((lb, lx)) = ls.take() {
                        if lb.iter().zip(b).any(|(p, q)| !relclose(*p, *q)) {
                            bad!(tags, "linear system solved for {:?} instead of {:?}", lb, b);
                        }
                        let f = 2.0 / (1.0 + s.cjratio);
                        if s.cjratio != 1.0 {
                            seen.scaled += 1;
                        }
                        if lx.iter().zip(x).any(|(p, q)| !relclose(*p * f, *q)) {
                            bad!(tags, "correction {:?} for solution {:?} with cj ratio {:e}: expected factor {:e}", x, lx, s.cjratio, f);
                        }
                    } else {
                        bad!(tags, "a correction was produced without a linear solve");
                    }
                }
                Ev::CTest { m, del, w, tol, res } => {
                    seen.ctests += 1;
                    let d = norm(del, w, &None);
                    let expect: Option<bool>; // None: diverging
                    if *m == 0 {
                        oldnrm = d;
                        if le(d, 1e-4 * 1e-4 * 0.33)? {
                            expect = Some(true);
                        } else {
                            expect = Some(le(s.ss * d, *tol)?);
                        }
                    } else {
                        let rate = (d / oldnrm).powf(1.0 / *m as f64);
                        if !le(rate, 0.9)? {
                            expect = None;
                        } else {
                            s.ss = rate / (1.0 - rate);
                            expect = Some(le(s.ss * d, *tol)?);
                        }
                    }
                    let got = match res {
                        Ok(b) => Some(*b),
                        Err(e) if e.contains("ConvergenceRecover") => None,
                        Err(e) => bad!(tags, "convergence test returned {}", e),
                    };
                    if got != expect {
                        let tags: &[&str] = if got == Some(true) { &["I13", "I14"] } else { &["I14"] };
                        bad!(tags, "convergence test {} at t={:e}: norm {:e}, ss {:e}: got {:?}, expected {:?}", m, a.t, d, s.ss, got, expect);
                    }
                }
                _ => {}
            }
        }
        // ---- outcome
        let k = s.kk;
        let kf = k as f64;
        let (mut err_k, mut err_km1) = (0.0, 0.0);
        let fail: Option<&str> = match &a.err {
            None => {
                let e = &a.ee;
                let ek = norm(e, &s.ewt, mask);
                err_k = c.sigma[k] * ek;
                knew = k;
                if k > 1 {
                    let d1: Vec<f64> = (0..n).map(|i| s.phi[k][i] + e[i]).collect();
                    err_km1 = c.sigma[k - 1] * norm(&d1, &s.ewt, mask);
                    let terr_k = (kf + 1.0) * err_k;
                    let terr_km1 = kf * err_km1;
                    if k > 2 {
                        let d2: Vec<f64> = (0..n).map(|i| s.phi[k - 1][i] + d1[i]).collect();
                        let terr_km2 = (kf - 1.0) * c.sigma[k - 2] * norm(&d2, &s.ewt, mask);
                        if le(terr_km1.max(terr_km2), terr_k)? {
                            knew = k - 1;
                        }
                    } else if le(terr_km1, 0.5 * terr_k)? {
                        knew = k - 1;
                    }
                }
                if le(c.ck * ek, 1.0)? {
                    None
                } else {
                    Some("error test")
                }
            }
            Some(e) if e.contains("ConvergenceRecover") || e.contains("RecoverableFail") => Some("convergence"),
            Some(_) => Some("hard"),
        };
        match fail {
            None => {
                if ia + 1 != at.len() {
                    bad!(tags, "attempt {} at t={:e} passed the error test, yet the step from t={:e} was tried again (at t={:e})", ia + 1, a.t, saved_t, at[ia + 1].t);
                }
                if !call.out.ok() {
                    // an error after an accepted step can only come from the root functions
                    if let Out::Err(e) = &call.out {
                        if e.contains("Root") {
                            return Ok(Ok(false));
                        }
                    }
                    bad!(tags, "attempt {} at t={:e} passed the error test, yet solve returned {:?}", ia + 1, a.t, call.out);
                }
                s.tn = t;
                s.psi = c.psi.clone();
                s.alpha = c.alpha.clone();
                s.beta = c.beta.clone();
                s.sigma = c.sigma.clone();
                s.gamma = c.gamma.clone();
                s.ns = c.ns;
                // ---- accepted: order and step for the next step
                s.nst += 1;
                let kdiff = s.kk as i64 - s.kused as i64;
                s.kused = s.kk;
                s.hused = s.hh;
                if knew + 1 == s.kk || s.kk == env.maxord {
                    s.phase = 1;
                }
                let hmax = |h: f64| if h.abs() * env.hmax_inv > 1.0 { h / (h.abs() * env.hmax_inv) } else { h };
                if s.phase == 0 {
                    if s.nst > 1 {
                        s.kk += 1;
                        s.hh = hmax(2.0 * s.hh);
                        seen.raised += 1;
                    }
                } else {
                    let mut err_new = err_k;
                    if knew + 1 == s.kk {
                        s.kk -= 1;
                        err_new = err_km1;
                        seen.lowered += 1;
                    } else if s.kk == env.maxord || s.kk + 1 >= s.ns || kdiff == 1 {
                    } else {
                        let d: Vec<f64> = (0..n).map(|i| a.ee[i] - s.phi[k + 1][i]).collect();
                        let err_kp1 = norm(&d, &s.ewt, mask) / (kf + 2.0);
                        let terr_k = (kf + 1.0) * err_k;
                        let terr_kp1 = (kf + 2.0) * err_kp1;
                        let terr_km1 = kf * err_km1;
                        let act = if k == 1 {
                            if le(0.5 * terr_k, terr_kp1)? {
                                0
                            } else {
                                1
                            }
                        } else if le(terr_km1, terr_k.min(terr_kp1))? {
                            -1
                        } else if le(terr_k, terr_kp1)? {
                            0
                        } else {
                            1
                        };
                        if act == 1 {
                            s.kk += 1;
                            err_new = err_kp1;
                            seen.raised += 1;
                        } else if act == -1 {
                            s.kk -= 1;
                            err_new = err_km1;
                            seen.lowered += 1;
                        }
                    }
                    let rr = (2.0 * err_new + 1e-4).powf(-1.0 / (s.kk as f64 + 1.0));
                    if le(2.0, rr)? {
                        s.hh = hmax(2.0 * s.hh);
                    } else if le(rr, 1.0)? {
                        s.hh *= rr.min(0.9).max(0.5);
                    }
                }
                // ---- history
                if s.kused < env.maxord {
                    s.phi[s.kused + 1] = a.ee.clone();
                }
                let mut acc = a.ee.clone();
                for j in (0..=s.kused).rev() {
                    for i in 0..n {
                        acc[i] += s.phi[j][i];
                        s.phi[j][i] = acc[i];
                    }
                }
                if let (Some(ts), true) = (s.tstop, call.out != Out::Root) {
                    let tr = 100.0 * f64::EPSILON * (s.tn.abs() + s.hh.abs());
                    if (s.tn - ts).abs() <= tr {
                        s.tstop = None;
                        seen.stops += 1;
                    } else if (s.tn + s.hh - ts) * s.hh > 0.0 {
                        s.hh = (ts - s.tn) * (1.0 - 4.0 * f64::EPSILON);
                    }
                }
                seen.steps += 1;
                seen.orders[s.kused] += 1;
                return Ok(Ok(true));
            }
            Some(kind) => {
                // back to where the attempt started
                s.phi = hist;
                s.ns = c.ns;
                s.phase = 1;
                let rr;
                let mut give_up = false;
                match kind {
                    "error test" => {
                        nef += 1;
                        seen.retries_err += 1;
                        if nef == 1 {
                            let err_new = if s.kk == knew { err_k } else { err_km1 };
                            s.kk = knew;
                            rr = (0.9 * (2.0 * err_new + 1e-4).powf(-1.0 / (s.kk as f64 + 1.0))).min(0.9).max(0.25);
                        } else if nef == 2 {
                            s.kk = knew;
                            rr = 0.25;
                        } else if nef < 10 {
                            s.kk = 1;
                            rr = 0.25;
                        } else {
                            rr = 1.0;
                            give_up = true;
                        }
                    }
                    "convergence" => {
                        ncf += 1;
                        seen.retries_conv += 1;
                        rr = 0.25;
                        if ncf >= 10 {
                            give_up = true;
                        }
                    }
                    _ => {
                        rr = 1.0;
                        give_up = true;
                    }
                }
                s.hh *= rr;
                let last = ia + 1 == at.len();
                if give_up {
                    if !last {
                        bad!(&["I06", "I12", "I14"], "the step from t={:e} is still tried after {} convergence failures and {} error test failures", saved_t, ncf, nef);
                    }
                    if call.out.ok() {
                        bad!(&["I06", "I12", "I14"], "solve returned {:?} although the last attempt failed ({})", call.out, kind);
                    }
                    seen.ended += 1;
                    s.tn = saved_t;
                    return Ok(Ok(false));
                }
                if last {
                    bad!(&["I06", "I12", "I14"], "the step from t={:e} ended with {:?} after {} convergence failures and {} error test failures, the last attempt ({}) was to be retried with a smaller step",
                        saved_t, call.out, ncf, nef, kind);
                }
                if s.nst == 0 {
                    seen.first_step_retries += 1;
                    s.psi[0] = s.hh;
                    s.phi[1].iter_mut().for_each(|x| *x *= rr);
                }
            }
        }
    }
    Ok(Ok(false))
}

/// Compare the predicted state with the state after the call.
pub fn compare(m: &St, g: &St, env: &Env) -> Result<(), Bad> {
    macro_rules! bad { ($p:expr, $($a:tt)*) => { return Err(Bad($p, format!($($a)*))) }; }
    let n = m.phi[0].len();
    if g.nst != m.nst {
        bad!(&["I08", "I14"], "{} steps counted, expected {}", g.nst, m.nst);
    }
    if !close(g.tn, m.tn, m.tn.abs() + 1e-3 * m.hused.abs()) {
        bad!(&["I14"], "time after the step {:e}, expected {:e}", g.tn, m.tn);
    }
    if g.kused != m.kused || !relclose(g.hused, m.hused) {
        bad!(&["I08", "I14"], "last step recorded as order {} size {:e}, expected {} {:e}", g.kused, g.hused, m.kused, m.hused);
    }
    if g.kk != m.kk {
        bad!(&["I14"], "after the step to t={:e} with order {}: next order {}, expected {}", m.tn, m.kused, g.kk, m.kk);
    }
    if !relclose(g.hh, m.hh) {
        bad!(&["I14"], "after the step to t={:e} with order {} size {:e}: next step {:e}, expected {:e}", m.tn, m.kused, m.hused, g.hh, m.hh);
    }
    if g.phase != m.phase || g.ns != m.ns {
        bad!(&["I14"], "after the step to t={:e}: phase {} ns {}, expected {} {}", m.tn, g.phase, g.ns, m.phase, m.ns);
    }
    if !relclose(g.cj, m.cj) || !relclose(g.cjold, m.cjold) {
        bad!(&["I14"], "cj {:e} cjold {:e}, expected {:e} {:e}", g.cj, g.cjold, m.cj, m.cjold);
    }
    for i in 0..=m.kused {
        if !relclose(g.psi[i], m.psi[i]) {
            bad!(&["I14"], "step sum psi[{}] = {:e}, expected {:e}", i, g.psi[i], m.psi[i]);
        }
    }
    for j in 0..=(m.kused + 1).min(env.maxord) {
        for i in 0..n {
            let sc: f64 = (j..=m.kused + 1).filter(|k| *k < m.phi.len()).map(|k| m.phi[k][i].abs()).sum::<f64>() + m.phi[0][i].abs() * 1e-3;
            if !close(g.phi[j][i], m.phi[j][i], sc) {
                bad!(&["I14"], "after the step to t={:e} with order {}: history phi[{}][{}] = {:e}, expected {:e}", m.tn, m.kused, j, i, g.phi[j][i], m.phi[j][i]);
            }
        }
    }
    if g.tstop != m.tstop {
        bad!(&["I05"], "stop time {:?}, expected {:?}", g.tstop, m.tstop);
    }
    Ok(())
}
