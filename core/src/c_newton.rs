//! C07..C12: a scripted nonlinear problem whose callbacks are also the monitor.
//! The monitor is an online acceptor for the Newton protocol: it knows, after every event, which event must
//! come next and with which arguments, and what the call must return.
use crate::c_linear::panic_text;
use crate::erased::{new_newton, Counters, DynNewton, DynProblem, E, NSIZES};
use crate::report::{Cfg, Report};
use crate::rng::{mix, Rng};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Where decisions come from: random with per-solve tendencies, or an enumerated script.
pub enum Dec {
    Rand { r: Rng, p_conv: f64, p_rec: f64, p_err: f64, p_stale: f64, honest: bool },
    Script { digits: Vec<u8>, pos: usize, arity: Vec<u8> },
}
impl Dec {
    fn choose(&mut self, arity: u8, weights: impl Fn(&mut Rng, f64, f64, f64, f64, bool) -> u8) -> u8 {
        match self {
            Dec::Rand { r, p_conv, p_rec, p_err, p_stale, honest } => weights(r, *p_conv, *p_rec, *p_err, *p_stale, *honest),
            Dec::Script { digits, pos, arity: ar } => {
                let d = digits.get(*pos).copied().unwrap_or(0);
                if *pos < ar.len() {
                    ar[*pos] = arity
                } else {
                    ar.push(arity)
                }
                *pos += 1;
                d.min(arity - 1)
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Sys0,
    Setup,
    Solve,
    Ctest,
    SysN,
    Done(Result<(), E>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Why {
    Running,
    Accepted,
    HardError,
    RecNotRetried,
    Budget,
    StartFailed,
}

pub struct Mock {
    pub n: usize,
    dec: Dec,
    val: Rng,
    // model across solves
    jcur: bool,
    niters: usize,
    nconv: usize,
    maxiters: usize,
    // model of the current solve
    st: St,
    why: Why,
    attempt: usize,
    it: usize,
    call: bool,
    y0: Vec<f64>,
    w: Vec<f64>,
    tol: f64,
    y: Vec<f64>,
    f: Vec<f64>,
    delta: Vec<f64>,
    last_ct: Vec<f64>,
    accepted_after_false: bool,
    refreshing: bool,
    desync: bool,
    pub bad: Vec<(&'static [&'static str], String)>,
    pub log: Vec<String>,
    pub events: u64,
    calls: u64,
    pub stat: [u64; 12],
    shape: u64,
    zeros: bool,
    /// powers of two applied to residuals and to iterates; share of non-finite values
    fscale: f64,
    yscale: f64,
    nonfin: f64,
    /// further callbacks allowed in a solve with a long iteration
    more: u64,
}
/// equal values, NaN equal to NaN
fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || x.is_nan() && y.is_nan())
}
pub struct Budget;

const KINDS: [&str; 4] = ["sys", "setup", "solve", "ctest"];
impl Mock {
    pub fn new(n: usize, maxiters: usize, dec: Dec, val: Rng) -> Mock {
        Mock {
            n,
            dec,
            val,
            jcur: false,
            niters: 0,
            nconv: 0,
            maxiters,
            st: St::Sys0,
            why: Why::Running,
            attempt: 0,
            it: 0,
            call: false,
            y0: vec![],
            w: vec![],
            tol: 0.0,
            y: vec![],
            f: vec![],
            delta: vec![],
            last_ct: vec![],
            accepted_after_false: false,
            refreshing: false,
            desync: false,
            bad: vec![],
            log: vec![],
            events: 0,
            calls: 0,
            stat: [0; 12],
            shape: 0,
            zeros: false,
            fscale: 1.0,
            yscale: 1.0,
            nonfin: 0.0,
            more: 0,
        }
    }
    fn begin(&mut self, y0: &[f64], w: &[f64], tol: f64, call: bool) {
        self.st = St::Sys0;
        self.why = Why::Running;
        self.attempt = 0;
        self.it = 0;
        self.call = call;
        self.y0 = y0.to_vec();
        self.w = w.to_vec();
        self.tol = tol;
        self.y = y0.to_vec();
        self.last_ct.clear();
        self.refreshing = false;
        self.calls = 0;
    }
    fn flag(&mut self, tags: &'static [&'static str], msg: String) {
        if self.bad.len() < 8 || self.bad.iter().filter(|b| b.0 == tags).count() < 2 {
            self.bad.push((tags, msg));
        }
    }
    fn ev(&mut self, kind: usize, s: impl FnOnce() -> String) -> bool {
        self.events += 1;
        self.calls += 1;
        if self.log.len() < 400 {
            let t = s();
            self.log.push(t);
        }
        if self.calls > 3000 + 100 * (self.maxiters.min(1000) as u64) + self.more {
            self.flag(&["C10"], format!("no end in sight after {} callbacks in one solve (model says {:?}, {:?})", self.calls, self.st, self.why));
            std::panic::panic_any(Budget);
        }
        if self.desync {
            return false;
        }
        let want = match self.st {
            St::Sys0 | St::SysN => 0,
            St::Setup => 1,
            St::Solve => 2,
            St::Ctest => 3,
            St::Done(_) => 9,
        };
        if want == kind {
            return true;
        }
        self.desync = true;
        if want == 9 {
            let tags: &'static [&'static str] = match self.why {
                Why::Accepted => &["C07", "C08"],
                Why::HardError => &["C11", "C08"],
                Why::RecNotRetried => &["C09", "C10"],
                Why::StartFailed => &["C09", "C10", "C11"],
                Why::Budget => &["C10", "C09"],
                Why::Running => &["C08"],
            };
            self.flag(tags, format!("callback {} after the solve had to end ({:?}, {:?})", KINDS[kind], self.st, self.why));
        } else if self.refreshing && (want <= 1 || kind <= 1) {
            self.flag(&["C09", "C08"], format!("during the Jacobian refresh: got {}, expected {} ({:?})", KINDS[kind], KINDS[want], self.st));
        } else {
            self.flag(&["C08"], format!("got callback {}, expected {} ({:?})", KINDS[kind], KINDS[want], self.st));
        }
        false
    }
    /// a recoverable failure inside the iteration
    fn recover(&mut self, why: Why) {
        if !self.jcur {
            self.nconv += 1;
            self.attempt += 1;
            self.st = St::Sys0;
            self.call = true;
            self.refreshing = true;
            self.y = self.y0.clone();
            self.stat[0] += 1;
        } else {
            self.nconv += 1;
            self.st = St::Done(Err(E::ConvRec));
            self.why = why;
            self.stat[if why == Why::Budget { 1 } else { 2 }] += 1;
        }
    }
    fn hard(&mut self, e: E, why: Why) {
        self.nconv += 1;
        self.st = St::Done(Err(e));
        self.why = why;
        self.stat[3] += 1;
    }
    fn fail_iter(&mut self, e: E) {
        if e == E::ConvRec {
            self.recover(Why::RecNotRetried)
        } else {
            self.hard(e, Why::HardError)
        }
    }
    fn ints(&mut self, m: i64, scale: f64) -> Vec<f64> {
        let z = self.zeros;
        let n = self.n;
        let q = self.nonfin;
        (0..n)
            .map(|_| {
                if z && self.val.chance(0.7) {
                    0.0
                } else if q > 0.0 && self.val.chance(q) {
                    *self.val.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])
                } else {
                    self.val.range(-m, m) as f64 * 0.5 * scale
                }
            })
            .collect()
    }
    fn err_kind(&mut self) -> E {
        match self.val.below(4) {
            0 => E::Illegal,
            1 => E::Continue,
            k => E::Lin(1 + (k + self.val.below(5)) % 7),
        }
    }
    fn note(&mut self, d: u8, kind: u64) {
        self.shape = mix(self.shape ^ (kind * 8 + d as u64 + 1));
    }
    /// judge the return of a solve
    fn end(&mut self, r: Result<(), E>, y: &[f64], y0: &[f64], w: &[f64], c: Counters) {
        let dbg = format!("returned {:?} while the model says {:?} ({:?})", r, self.st, self.why);
        if !self.desync {
            match self.st {
                St::Done(want) => {
                    if r != want {
                        self.desync = true;
                        let tags: &'static [&'static str] = match (want, r) {
                            (Ok(()), _) => &["C07"],
                            (Err(_), Ok(())) => &["C07", "C11", "C10"],
                            (Err(E::ConvRec), Err(_)) => {
                                if self.why == Why::Budget {
                                    &["C10", "C11"]
                                } else {
                                    &["C11", "C09"]
                                }
                            }
                            (Err(_), Err(_)) => &["C11"],
                        };
                        self.flag(tags, dbg);
                    }
                }
                _ => {
                    self.desync = true;
                    let tags: &'static [&'static str] = match (r, self.st) {
                        (Ok(()), _) => &["C07", "C08"],
                        (Err(_), St::Sys0) if self.refreshing => &["C09"],
                        (Err(_), St::Setup) if self.refreshing => &["C09", "C08"],
                        (Err(E::ConvRec), St::SysN) => &["C10", "C08"],
                        (Err(_), _) => &["C08", "C11"],
                    };
                    self.flag(tags, dbg);
                }
            }
        }
        if r.is_ok() {
            // independent of the acceptor: success must return the last iterate shown to the test
            if !same(&self.last_ct, y) {
                self.flag(&["C07"], format!("success returned y={:?}, the convergence test last saw {:?}", y, self.last_ct));
            }
            if !self.desync {
                self.jcur = false;
                if !same(y, &self.y) {
                    let t = format!("success returned y={:?}, initial guess plus corrections is {:?}", y, self.y);
                    self.flag(&["C07"], t);
                }
            }
        }
        if y0 != self.y0 || w != self.w {
            self.flag(&["C08"], "initial guess or weights were modified".into());
        }
        if !self.desync {
            if c.niters != self.niters {
                let t = format!("iteration counter {} but {} linear solves were attempted", c.niters, self.niters);
                self.flag(&["C12"], t);
                self.niters = c.niters;
            }
            if c.nconv != self.nconv {
                let t = format!("convergence failure counter {} but refreshes plus failed solves are {}", c.nconv, self.nconv);
                self.flag(&["C12"], t);
                self.nconv = c.nconv;
            }
        }
    }
}
impl DynProblem for Mock {
    fn sys(&mut self, y: &[f64], f: &mut [f64]) -> Result<(), E> {
        let ok = self.ev(0, || format!("sys(y={y:?})"));
        let first = self.st == St::Sys0;
        if ok {
            let want = if first { &self.y0 } else { &self.y };
            if !same(y, want) {
                let t = format!("residual evaluated at {:?}, expected {:?}", y, want);
                self.flag(if self.refreshing && first { &["C08", "C09"] } else { &["C08"] }, t);
            }
        }
        let d = self.dec.choose(3, |r, _, rec, err, _, _| if r.chance(rec) { 1 } else if r.chance(err) { 2 } else { 0 });
        self.note(d, 0);
        let vals = self.ints(16, self.fscale);
        f.copy_from_slice(&vals);
        self.f = vals;
        let e = match d {
            0 => None,
            1 => Some(E::ConvRec),
            _ => Some(self.err_kind()),
        };
        if ok {
            match e {
                None => {
                    self.st = if first {
                        if self.call {
                            St::Setup
                        } else {
                            self.it = 0;
                            self.y = self.y0.clone();
                            St::Solve
                        }
                    } else {
                        St::Solve
                    }
                }
                Some(e) => {
                    if first {
                        self.stat[4] += 1;
                        self.hard(e, Why::StartFailed)
                    } else {
                        self.fail_iter(e)
                    }
                }
            }
        }
        match e {
            None => Ok(()),
            Some(e) => {
                self.log.push(format!("   -> Err({e:?})"));
                Err(e)
            }
        }
    }
    fn setup(&mut self, y: &[f64], f: &[f64], jbad: bool) -> Result<bool, E> {
        let ok = self.ev(1, || format!("setup(y={y:?}, f={f:?}, jbad={jbad})"));
        if ok {
            if !same(y, &self.y0) {
                let t = format!("setup called at {:?}, expected the initial guess {:?}", y, self.y0);
                self.flag(&["C08"], t);
            }
            if !same(f, &self.f) {
                let t = format!("setup got residual {:?}, the last one evaluated is {:?}", f, self.f);
                self.flag(&["C08"], t);
            }
            if jbad != (self.attempt > 0) {
                let t = format!("setup staleness flag {} on attempt {}", jbad, self.attempt + 1);
                self.flag(&["C08", "C09"], t);
            }
        }
        let d = self.dec.choose(4, |r, _, rec, err, stale, honest| {
            if r.chance(rec) {
                2
            } else if r.chance(err) {
                3
            } else if r.chance(stale) && !(honest && jbad) {
                1
            } else {
                0
            }
        });
        self.note(d, 1);
        let res = match d {
            0 => Ok(true),
            1 => Ok(false),
            2 => Err(E::ConvRec),
            _ => Err(self.err_kind()),
        };
        if ok {
            match res {
                Ok(j) => {
                    self.jcur = j;
                    self.it = 0;
                    self.y = self.y0.clone();
                    self.st = St::Solve;
                    if self.refreshing {
                        self.stat[5] += 1
                    }
                }
                Err(e) => {
                    self.stat[6] += 1;
                    self.hard(e, Why::StartFailed)
                }
            }
        }
        self.log.push(format!("   -> {res:?}"));
        res
    }
    fn solve(&mut self, y: &[f64], b: &mut [f64]) -> Result<(), E> {
        let ok = self.ev(2, || format!("solve(y={y:?}, b={b:?})"));
        if ok {
            self.niters += 1;
            if !same(y, &self.y) {
                let t = format!("linear solve got iterate {:?}, expected {:?}", y, self.y);
                self.flag(&["C08"], t);
            }
            if !b.iter().zip(&self.f).all(|(a, c)| *a == -*c || a.is_nan() && c.is_nan()) {
                let t = format!("linear solve got right-hand side {:?}, the negated residual is -{:?}", b, self.f);
                self.flag(&["C08"], t);
            }
        }
        let d = self.dec.choose(3, |r, _, rec, err, _, _| if r.chance(rec) { 1 } else if r.chance(err) { 2 } else { 0 });
        self.note(d, 2);
        let vals = self.ints(16, self.yscale);
        b.copy_from_slice(&vals);
        self.delta = vals;
        let e = match d {
            0 => None,
            1 => Some(E::ConvRec),
            _ => Some(self.err_kind()),
        };
        if ok {
            match e {
                None => {
                    for i in 0..self.n {
                        self.y[i] += self.delta[i];
                    }
                    self.st = St::Ctest;
                }
                Some(e) => self.fail_iter(e),
            }
        }
        match e {
            None => Ok(()),
            Some(e) => {
                self.log.push(format!("   -> Err({e:?})"));
                Err(e)
            }
        }
    }
    fn ctest(&mut self, c: Counters, y: &[f64], del: &[f64], tol: f64, w: &[f64]) -> Result<bool, E> {
        let ok = self.ev(3, || format!("ctest(y={y:?}, del={del:?}, cur_iter={})", c.cur));
        self.last_ct = y.to_vec();
        if ok {
            if !same(y, &self.y) {
                let t = format!("convergence test got iterate {:?}, expected {:?}", y, self.y);
                self.flag(&["C08", "C07"], t);
            }
            if !same(del, &self.delta) {
                let t = format!("convergence test got correction {:?}, expected {:?}", del, self.delta);
                self.flag(&["C08"], t);
            }
            if !same(&[tol], &[self.tol]) {
                self.flag(&["C08"], format!("convergence test got tolerance {tol:e}"));
            }
            if w != &self.w[..] {
                self.flag(&["C08"], format!("convergence test got weights {w:?}"));
            }
            if c.cur != self.it {
                let t = format!("current iteration count {} at the convergence test, earlier corrections in this attempt {}", c.cur, self.it);
                self.flag(&["C12"], t);
            }
        }
        let d = self.dec.choose(4, |r, conv, rec, err, _, _| {
            if r.chance(conv) {
                0
            } else if r.chance(rec) {
                2
            } else if r.chance(err) {
                3
            } else {
                1
            }
        });
        self.note(d, 3);
        let res = match d {
            0 => Ok(true),
            1 => Ok(false),
            2 => Err(E::ConvRec),
            _ => Err(self.err_kind()),
        };
        if ok {
            match res {
                Ok(true) => {
                    self.st = St::Done(Ok(()));
                    self.why = Why::Accepted;
                    self.stat[7] += 1;
                    if self.it > 0 {
                        self.stat[8] += 1
                    }
                    if self.refreshing {
                        self.stat[9] += 1
                    }
                }
                Ok(false) => {
                    self.it += 1;
                    if self.it >= self.maxiters {
                        self.recover(Why::Budget)
                    } else {
                        self.st = St::SysN
                    }
                }
                Err(e) => self.fail_iter(e),
            }
        }
        self.log.push(format!("   -> {res:?}"));
        res
    }
}

const STATN: [&str; 12] = [
    "jacobian refreshes (retry with jbad)",
    "budget exhausted with current jacobian",
    "recoverable failure returned, jacobian current",
    "hard errors returned",
    "residual failed at the initial guess",
    "refresh setups completed",
    "setup failed",
    "accepted",
    "accepted after more than one iteration",
    "accepted after a refresh",
    "solves",
    "clones",
];

/// is one iteration to take very many corrections?
#[derive(Clone, Copy)]
enum Long {
    Yes,
    No,
}

/// one history on one Newton object; returns the arities (script mode)
fn history(n: usize, is32: bool, maxiters: usize, nsolves: usize, dec: Dec, mut r: Rng, rep: &mut Report, prop: &str, case: u64, scripted: bool, dec0: Long) -> Vec<u8> {
    let mut nw: Box<dyn DynNewton> = new_newton(is32, n, maxiters);
    let mut m = Mock::new(n, maxiters, dec, Rng::new(r.u64(), "val", case));
    let long = maxiters > 60_000 && matches!(dec0, Long::Yes);
    if long {
        m.more = 10 * maxiters as u64;
    }
    let mut calls = vec![];
    // guess, weights, tolerance and result of the solve before
    let mut last: Option<(Vec<f64>, Vec<f64>, f64, Vec<f64>)> = None;
    for s in 0..nsolves {
        let call = if scripted { (case as usize >> s) & 1 == 0 } else { r.chance(0.6) };
        calls.push(call);
        if !scripted && r.chance(0.15) {
            nw = nw.fork();
            m.stat[11] += 1;
            m.log.push("-- clone --".into());
        }
        if let Dec::Rand { p_conv, p_rec, p_err, p_stale, honest, .. } = &mut m.dec {
            *p_conv = *r.pick(&[0.0, 0.02, 0.2, 0.5, 0.9]);
            *p_rec = *r.pick(&[0.0, 0.0, 0.05, 0.3]);
            *p_err = *r.pick(&[0.0, 0.0, 0.05, 0.2]);
            *p_stale = *r.pick(&[0.0, 0.3, 0.9]);
            *honest = *p_stale > 0.5 || r.chance(0.7);
            if long {
                (*p_conv, *p_rec, *p_err) = (0.0, 0.0, 0.0);
            }
        }
        m.zeros = r.chance(0.15);
        // exact scales: the iterates stay sums of a few small multiples of one power of two
        let p2 = [1.0, 1.0, 1.0, (2f64).powi(-30), (2f64).powi(-70), (2f64).powi(-100), (2f64).powi(40), (2f64).powi(90)];
        let again = if scripted || last.is_none() { 9 } else { r.below(10) };
        if !scripted {
            m.fscale = *r.pick(&p2);
            if again > 2 {
                m.yscale = *r.pick(&p2);
            }
            m.nonfin = *r.pick(&[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.05, 0.4]);
        }
        let mut y0: Vec<f64> = (0..n).map(|_| r.range(-32, 32) as f64 * m.yscale).collect();
        let mut w: Vec<f64> = (0..n).map(|_| r.range(1, 64) as f64 / 8.0).collect();
        let mut tol = *r.pick(&[0.0, 0.5, 0.125, 1.0, 1024.0, -1.0, 7.888609052210118e-31, f64::NAN, f64::INFINITY]);
        let mut y: Vec<f64> = (0..n).map(|_| if r.chance(0.2) { f64::NAN } else { r.range(-99, 99) as f64 }).collect();
        if let (Some((a, b, c, d)), true) = (&last, again <= 2) {
            // the same guess again, the result as the next guess, the same output vector
            rep.count("solves repeated or continued from a result");
            y0 = if again == 1 { d.clone() } else { a.clone() };
            if again != 2 {
                w = b.clone();
                tol = *c;
            }
            if again != 0 {
                y = d.clone();
            }
        }
        m.begin(&y0, &w, tol, call);
        if m.log.len() > 300 {
            m.log.clear();
            m.log.push(format!("(events of the first {s} solves left out)"));
        }
        m.log.push(format!("solve #{s} y0={y0:?} call_lsetup={call} (model: jacobian current={})", m.jcur));
        let (mut y0m, mut wm) = (y0.clone(), w.clone());
        let strided = r.chance(0.25);
        let out = catch_unwind(AssertUnwindSafe(|| nw.solve(&mut m, &mut y0m, &mut y, &mut wm, tol, call, strided)));
        m.stat[10] += 1;
        match out {
            Err(p) => {
                if !p.is::<Budget>() {
                    let t = panic_text(p);
                    m.flag(&["C05", "C07", "C08", "C09", "C10", "C11", "C12"], format!("panic: {t}"));
                }
                break;
            }
            Ok(res) => {
                m.log.push(format!("  returned {res:?} y={y:?}"));
                let c = nw.counters();
                let end = if res.is_ok() { y.clone() } else { y0.clone() };
                last = if end.iter().all(|v| v.abs() < 1000.0 * m.yscale) { Some((y0.clone(), w.clone(), tol, end)) } else { None };
                m.end(res, &y, &y0m, &wm, c);
            }
        }
        if m.desync {
            break;
        }
    }
    rep.evaluations += 1;
    rep.add("callback events checked", m.events);
    for (i, k) in STATN.iter().enumerate() {
        if m.stat[i] > 0 {
            rep.add(k, m.stat[i])
        }
    }
    rep.distinct.insert(mix(m.shape ^ maxiters as u64));
    let hits: Vec<&String> = m.bad.iter().filter(|(t, _)| t.contains(&prop)).map(|x| &x.1).collect();
    if !hits.is_empty() {
        let tail: Vec<String> = m.log.iter().take(60).cloned().collect();
        rep.violation(
            case,
            format!("{}\nn={n} f32={is32} maxiters={maxiters} calls={:?}\nevents:\n  {}", hits.iter().map(|s| s.as_str()).collect::<Vec<_>>().join("\n"), &calls[calls.len().saturating_sub(200)..], tail.join("\n  ")),
        );
    } else if !m.bad.is_empty() {
        rep.count("deviations belonging to other properties");
    }
    if m.events > 6 && n <= 2 && m.events < 30 {
        rep.sample(|| format!("maxiters={maxiters}: {}", m.log.join(" ; ")));
    }
    match m.dec {
        Dec::Script { arity, .. } => arity,
        _ => vec![],
    }
}

pub fn random_case(cfg: &Cfg, prop: &'static str, case: u64, rep: &mut Report) {
    let mut r = Rng::new(cfg.seed, prop, case);
    let n = if r.chance(0.7) { 1 + r.below(3) } else { *r.pick(NSIZES) };
    let is32 = r.chance(0.4);
    let maxiters = *r.pick(&[0usize, 1, 1, 2, 2, 3, 3, 4, 4, 5, 7, 10, 50, 60, 130, 256, 300, usize::MAX, 65536, 1 << 31, 1 << 32, (1 << 32) + 1]);
    // now and then a long life of one object
    let ns = if r.chance(0.01) { 50 + r.below(150) } else { 1 + r.below(6) };
    // one object used until its totals need more than 16 bits
    let marathon = case % 2_000_000 == 5 && !cfg!(miri);
    let (n, maxiters, ns) = if marathon { (1, 3, 160_000) } else { (n, maxiters, ns) };
    // one iteration with more corrections than 16 bits count
    let long = case % 2_000_000 == 6 && !cfg!(miri);
    let (n, maxiters, ns, is32) = if long { (1, 66_000, 2, false) } else { (n, maxiters, ns, is32) };
    if long {
        rep.count("iterations of more than 65536 corrections");
    }
    if marathon {
        rep.count("totals beyond 16 bits");
    }
    let mut d = r.clone();
    d.u64();
    let honest = true;
    let dec = Dec::Rand { r: Rng::new(d.u64(), "dec", case), p_conv: 0.5, p_rec: 0.1, p_err: 0.1, p_stale: 0.1, honest };
    if maxiters > 1000 && !long {
        // only terminates through acceptance or failure: keep acceptance likely
        rep.count("unbounded budgets");
        let dec = Dec::Script { digits: (0..200).map(|i| if i % 2 == 0 { r.below(2) as u8 } else { 0 }).collect(), pos: 0, arity: vec![] };
        history(n, is32, maxiters, ns, dec, r, rep, prop, case, false, Long::No);
        return;
    }
    history(n, is32, maxiters, ns, dec, r, rep, prop, case, false, if long { Long::Yes } else { Long::No });
}

/// all decision scripts up to `depth` decisions, two solves on one object
pub fn enumerate(cfg: &Cfg, prop: &'static str, depth: usize, maxiters: usize, callmask: u64, rep: &mut Report) {
    let mut digits: Vec<u8> = vec![0];
    loop {
        let dec = Dec::Script { digits: digits.clone(), pos: 0, arity: vec![] };
        let ar = history(2, false, maxiters, 2, dec, Rng::new(cfg.seed, "enum", callmask), rep, prop, callmask | 1 << 40, true, Long::No);
        rep.count("enumerated scripts");
        if rep.nviol > 50 {
            return;
        }
        // next script: increment the last position below its arity, within depth
        let mut d: Vec<u8> = (0..ar.len().min(depth)).map(|i| digits.get(i).copied().unwrap_or(0)).collect();
        loop {
            match d.last().copied() {
                None => return,
                Some(v) => {
                    if v + 1 < ar[d.len() - 1] {
                        *d.last_mut().unwrap() = v + 1;
                        break;
                    }
                    d.pop();
                }
            }
        }
        digits = d;
    }
}
