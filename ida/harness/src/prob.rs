//! Problem families with known solutions, instrumented: every callback is recorded with all its arguments.
use crate::rng::Rng;
use crate::taps::{log, Ev, PLAN};
use ida::traits::*;
use ndarray::prelude::*;
use std::rc::Rc;

/// One component of a manufactured solution: a + b t + c sin(w t + p) + d exp(-s |t|) + k tanh((t-tc)/dl)
#[derive(Clone, Debug)]
pub struct Comp {
    pub a: f64,
    pub b: f64,
    pub c: f64,
    pub w: f64,
    pub p: f64,
    pub d: f64,
    pub s: f64,
    pub k: f64,
    pub tc: f64,
    pub dl: f64,
}
impl Comp {
    pub fn val(&self, t: f64) -> f64 {
        let mut v = self.a + self.b * t + self.c * (self.w * t + self.p).sin() + self.d * (-self.s * t).exp();
        if self.k != 0.0 {
            v += self.k * ((t - self.tc) / self.dl).tanh();
        }
        v
    }
    pub fn der(&self, t: f64) -> f64 {
        let mut v = self.b + self.c * self.w * (self.w * t + self.p).cos() - self.d * self.s * (-self.s * t).exp();
        if self.k != 0.0 {
            let th = ((t - self.tc) / self.dl).tanh();
            v += self.k / self.dl * (1.0 - th * th);
        }
        v
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    /// L ( M (y'-u') + dir ( S (y-u) + e o (y^3-u^3) ) ) = 0, M diagonal with zeros for algebraic components
    Manu { l: Vec<Vec<f64>>, m: Vec<f64>, s: Vec<Vec<f64>>, e: Vec<f64>, u: Vec<Comp>, dir: f64 },
    Roberts,
    /// y0' = y1, eps-scaled Van der Pol: y1' = mu((1-y0^2) y1) - y0
    Vdp { mu: f64 },
    /// dy/dt = f with a Jacobian that is singular from time ts on (both matrices multiplied by zero rows)
    Sing { ts: f64, always: bool },
    /// y' = 1/(c-y) style blow-up: y' = y^2
    Blow,
    /// Lorenz
    Lorenz,
    /// another problem in other units: time is t times the inner time, each component is y times the inner one, the
    /// equations are multiplied by r and put in the order eq, the root functions are multiplied by g; all factors
    /// (signed) powers of two
    Units { inner: Box<Spec>, t: f64, y: Vec<f64>, r: Vec<f64>, eq: Vec<usize>, g: f64 },
    /// uncoupled copies of another problem
    Copies { inner: Box<Spec>, k: usize },
}

#[derive(Clone, Debug)]
pub enum RootFn {
    /// s (t-a)
    Time { a: f64, s: f64 },
    /// sin(w t + p)
    Sin { w: f64, p: f64 },
    /// s (y_c - v)
    Y { c: usize, v: f64, s: f64 },
    /// s (y'_c - v)
    Yp { c: usize, v: f64, s: f64 },
    /// identically zero until |t| > a, then s (|t| - a) (t-b)
    Late { a: f64, b: f64, s: f64 },
    /// two exact zeros: s (a-t) up to the middle of a and b, s (t-b) from there
    Tri { a: f64, b: f64, s: f64 },
    /// s (a-t) up to a, exactly zero from a to b, s (t-b) from b (in the direction of a and b)
    Flat { a: f64, b: f64, s: f64 },
    /// never zero
    Pos,
    /// always zero
    Zero,
}
impl RootFn {
    pub fn eval(&self, t: f64, y: &[f64], yp: &[f64]) -> f64 {
        match *self {
            RootFn::Time { a, s } => s * (t - a),
            RootFn::Sin { w, p } => (w * t + p).sin(),
            RootFn::Y { c, v, s } => s * (y[c] - v),
            RootFn::Yp { c, v, s } => s * (yp[c] - v),
            RootFn::Late { a, b, s } => {
                if t.abs() <= a {
                    0.0
                } else {
                    s * (t.abs() - a) * (t - b)
                }
            }
            RootFn::Tri { a, b, s } => {
                if (t - 0.5 * (a + b)) * (b - a) < 0.0 {
                    s * (a - t)
                } else {
                    s * (t - b)
                }
            }
            RootFn::Flat { a, b, s } => {
                let d = if b < a { -1.0 } else { 1.0 };
                if (t - a) * d < 0.0 {
                    s * (a - t)
                } else if (t - b) * d <= 0.0 {
                    0.0
                } else {
                    s * (t - b)
                }
            }
            RootFn::Pos => 1.0 + t * t,
            RootFn::Zero => 0.0,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub n: usize,
    pub kind: Kind,
    pub roots: Vec<RootFn>,
}

impl Spec {
    pub fn exact(&self, t: f64) -> Option<(Vec<f64>, Vec<f64>)> {
        match &self.kind {
            Kind::Manu { u, .. } => Some((u.iter().map(|c| c.val(t)).collect(), u.iter().map(|c| c.der(t)).collect())),
            _ => None,
        }
    }
    pub fn initial(&self) -> (Vec<f64>, Vec<f64>) {
        match &self.kind {
            Kind::Manu { .. } => self.exact(0.0).unwrap(),
            Kind::Roberts => (vec![1., 0., 0.], vec![-0.04, 0.04, 0.]),
            Kind::Vdp { mu: _ } => (vec![2.0, 0.0], vec![0.0, -2.0]),
            Kind::Sing { .. } => (vec![1.0, 0.5], vec![-1.0, -0.5]),
            Kind::Blow => (vec![1.0], vec![1.0]),
            Kind::Lorenz => {
                let y = vec![1.0, 2.0, 3.0];
                let mut r = vec![0.0; 3];
                self.res(0.0, &y, &[0.0; 3], &mut r);
                (y, r.iter().map(|x| -x).collect())
            }
            Kind::Units { inner, t, y, .. } => {
                let (a, b) = inner.initial();
                (a.iter().zip(y).map(|(v, y)| v * y).collect(), b.iter().zip(y).map(|(v, y)| v * y / t).collect())
            }
            Kind::Copies { inner, k } => {
                let (a, b) = inner.initial();
                (a.repeat(*k), b.repeat(*k))
            }
        }
    }
    pub fn differential(&self) -> Vec<bool> {
        match &self.kind {
            Kind::Manu { m, .. } => m.iter().map(|m| *m != 0.0).collect(),
            Kind::Roberts => vec![true, true, false],
            Kind::Units { inner, .. } => inner.differential(),
            Kind::Copies { inner, k } => inner.differential().repeat(*k),
            _ => vec![true; self.n],
        }
    }
    pub fn res(&self, t: f64, y: &[f64], yp: &[f64], r: &mut [f64]) {
        let n = self.n;
        match &self.kind {
            Kind::Manu { l, m, s, e, u, dir } => {
                let mut f = vec![0.0; n];
                let uu: Vec<f64> = u.iter().map(|c| c.val(t)).collect();
                for i in 0..n {
                    let mut v = 0.0;
                    for j in 0..n {
                        if s[i][j] != 0.0 {
                            v += s[i][j] * (y[j] - uu[j]);
                        }
                    }
                    if e[i] != 0.0 {
                        v += e[i] * (y[i].powi(3) - uu[i].powi(3));
                    }
                    f[i] = m[i] * (yp[i] - u[i].der(t)) + dir * v;
                }
                for i in 0..n {
                    r[i] = (0..n).map(|j| l[i][j] * f[j]).sum();
                }
            }
            Kind::Roberts => {
                r[0] = -0.04 * y[0] + 1.0e4 * y[1] * y[2];
                r[1] = -r[0] - 3.0e7 * y[1] * y[1] - yp[1];
                r[0] -= yp[0];
                r[2] = y[0] + y[1] + y[2] - 1.0;
            }
            Kind::Vdp { mu } => {
                r[0] = yp[0] - y[1];
                r[1] = yp[1] - mu * (1.0 - y[0] * y[0]) * y[1] + y[0];
            }
            Kind::Sing { ts, always } => {
                let dead = *always || t >= *ts;
                r[0] = yp[0] + y[0];
                r[1] = if dead { 1.0 } else { yp[1] + y[1] };
            }
            Kind::Blow => r[0] = yp[0] - y[0] * y[0],
            Kind::Lorenz => {
                r[0] = yp[0] - 10.0 * (y[1] - y[0]);
                r[1] = yp[1] - y[0] * (28.0 - y[2]) + y[1];
                r[2] = yp[2] - y[0] * y[1] + 8.0 / 3.0 * y[2];
            }
            Kind::Units { inner, t: tu, y: yu, r: ru, eq, .. } => {
                let (a, b) = in_units(y, yp, *tu, yu);
                let mut f = vec![0.0; n];
                inner.res(t / tu, &a, &b, &mut f);
                for i in 0..n {
                    r[i] = f[eq[i]] * ru[i];
                }
            }
            Kind::Copies { inner, k } => {
                let m = inner.n;
                for c in 0..*k {
                    let q = c * m..(c + 1) * m;
                    inner.res(t, &y[q.clone()], &yp[q.clone()], &mut r[q]);
                }
            }
        }
    }
    pub fn jac(&self, t: f64, cj: f64, y: &[f64], _yp: &[f64], a: &mut [Vec<f64>]) {
        let n = self.n;
        match &self.kind {
            Kind::Manu { l, m, s, e, dir, .. } => {
                let mut b = vec![vec![0.0; n]; n];
                for i in 0..n {
                    for j in 0..n {
                        b[i][j] = dir * s[i][j];
                    }
                    b[i][i] += dir * 3.0 * e[i] * y[i] * y[i] + cj * m[i];
                }
                for i in 0..n {
                    for j in 0..n {
                        a[i][j] = (0..n).map(|k| l[i][k] * b[k][j]).sum();
                    }
                }
            }
            Kind::Roberts => {
                a[0] = vec![-0.04 - cj, 1e4 * y[2], 1e4 * y[1]];
                a[1] = vec![0.04, -1e4 * y[2] - 6e7 * y[1] - cj, -1e4 * y[1]];
                a[2] = vec![1.0; 3];
            }
            Kind::Vdp { mu } => {
                a[0] = vec![cj, -1.0];
                a[1] = vec![2.0 * mu * y[0] * y[1] + 1.0, cj - mu * (1.0 - y[0] * y[0])];
            }
            Kind::Sing { ts, always } => {
                let dead = *always || t >= *ts;
                a[0] = vec![cj + 1.0, 0.0];
                a[1] = if dead { vec![0.0, 0.0] } else { vec![0.0, cj + 1.0] };
            }
            Kind::Blow => a[0][0] = cj - 2.0 * y[0],
            Kind::Lorenz => {
                a[0] = vec![cj + 10.0, -10.0, 0.0];
                a[1] = vec![-(28.0 - y[2]), cj + 1.0, y[0]];
                a[2] = vec![-y[1], -y[0], cj + 8.0 / 3.0];
            }
            Kind::Units { inner, t: tu, y: yu, r: ru, eq, .. } => {
                let (p, q) = in_units(y, _yp, *tu, yu);
                let mut f = vec![vec![0.0; n]; n];
                inner.jac(t / tu, cj * tu, &p, &q, &mut f);
                for i in 0..n {
                    for j in 0..n {
                        a[i][j] = f[eq[i]][j] * ru[i] / yu[j];
                    }
                }
            }
            Kind::Copies { inner, k } => {
                let m = inner.n;
                let mut b = vec![vec![0.0; m]; m];
                a.iter_mut().for_each(|row| row.iter_mut().for_each(|v| *v = 0.0));
                for c in 0..*k {
                    let q = c * m..(c + 1) * m;
                    inner.jac(t, cj, &y[q.clone()], &_yp[q], &mut b);
                    for i in 0..m {
                        for j in 0..m {
                            a[c * m + i][c * m + j] = b[i][j];
                        }
                    }
                }
            }
        }
    }
    pub fn root(&self, t: f64, y: &[f64], yp: &[f64]) -> Vec<f64> {
        if let Kind::Units { inner, t: tu, y: yu, g, .. } = &self.kind {
            let (p, q) = in_units(y, yp, *tu, yu);
            return inner.root(t / tu, &p, &q).iter().map(|v| v * g).collect();
        }
        self.roots.iter().map(|g| g.eval(t, y, yp)).collect()
    }
}

fn in_units(y: &[f64], yp: &[f64], tu: f64, yu: &[f64]) -> (Vec<f64>, Vec<f64>) {
    (y.iter().zip(yu).map(|(v, u)| v / u).collect(), yp.iter().zip(yu).map(|(v, u)| v / u * tu).collect())
}

/// Parameters of the random manufactured family.
#[derive(Clone, Copy, Debug)]
pub struct Fam {
    pub max_n: usize,
    pub dae: bool,
    pub stiff: bool,
    pub nonlin: bool,
    pub kink: bool,
    pub dir: f64,
    pub tend: f64,
    /// a linear invariant: first equation says sum y' = 0 is not representable here, so constant components instead
    pub constant: bool,
}

pub fn manu(r: &mut Rng, f: Fam) -> Spec {
    let n = if f.max_n > 10 { *r.pick(&[12, 16, 17, 24, 33]) } else { 1 + r.below(f.max_n) };
    let na = if f.dae && n > 1 { r.below(n) } else { 0 };
    let perm = r.perm(n);
    let mut m = vec![0.0; n];
    for (k, &i) in perm.iter().enumerate() {
        m[i] = if k < n - na { (1.0 + r.below(4) as f64) * 0.5 } else { 0.0 };
    }
    let mut s = vec![vec![0.0; n]; n];
    for i in 0..n {
        let lam = if m[i] == 0.0 {
            1.0 + 9.0 * r.unit()
        } else if f.stiff && r.chance(0.6) {
            10f64.powf(6.0 * r.unit())
        } else {
            3.0 * r.unit()
        };
        for j in 0..n {
            s[i][j] = if i == j { lam } else { lam * 0.5 * r.sym() / (n as f64) };
        }
    }
    let e = (0..n).map(|_| if f.nonlin && r.chance(0.5) { 10f64.powf(3.0 * r.unit() - 1.5) } else { 0.0 }).collect();
    let u = (0..n)
        .map(|_| {
            let mut c = Comp {
                a: 2.0 * r.sym(),
                b: if r.chance(0.3) { r.sym() / f.tend } else { 0.0 },
                c: if r.chance(0.7) { 10f64.powf(2.0 * r.unit() - 2.0) * 2.0 } else { 0.0 },
                w: 10f64.powf(1.3 * r.unit() - 0.6) * 4.0 / f.tend.max(1.0),
                p: 6.3 * r.unit(),
                d: if r.chance(0.4) { r.sym() } else { 0.0 },
                s: f.dir * (0.2 + 2.0 * r.unit()),
                k: 0.0,
                tc: 0.0,
                dl: 1.0,
            };
            if f.kink {
                c.k = 0.3 + r.unit();
                c.tc = f.dir * f.tend * (0.2 + 0.6 * r.unit());
                c.dl = f.tend * 10f64.powf(-1.0 - 2.5 * r.unit());
            }
            if f.constant {
                c = Comp { a: 2.0 * r.sym(), b: 0.0, c: 0.0, d: 0.0, ..c };
            }
            c
        })
        .collect();
    // row mixing, well conditioned: permutation times (I + small)
    let p2 = r.perm(n);
    let mut l = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..n {
            l[i][j] = if j == p2[i] { 1.0 + r.unit() } else if r.chance(0.4) { 0.6 * r.sym() / n as f64 } else { 0.0 };
        }
    }
    Spec { n, kind: Kind::Manu { l, m, s, e, u, dir: f.dir }, roots: vec![] }
}

#[derive(Clone, Debug)]
pub struct Prob(pub Rc<Spec>);

fn v<S: ndarray::Data<Elem = f64>>(a: &ArrayBase<S, Ix1>) -> Vec<f64> {
    a.iter().cloned().collect()
}

impl ModelSpec for Prob {
    type Scalar = f64;
    type Dim = Ix1;
    fn model_size(&self) -> usize {
        self.0.n
    }
}
impl Residual for Prob {
    fn res<S1, S2, S3>(&self, tt: f64, yy: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut rr: ArrayBase<S3, Ix1>)
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::Data<Elem = f64>,
        S3: ndarray::DataMut<Elem = f64>,
    {
        let (y, yp) = (v(&yy), v(&yp));
        let mut r = vec![0.0; self.0.n];
        self.0.res(tt, &y, &yp, &mut r);
        PLAN.with(|p| {
            let mut p = p.borrow_mut();
            let k = p.res_calls;
            p.res_calls += 1;
            for (at, c, v) in &p.res_bad {
                if *at == k {
                    let all = *c >= r.len();
                    r.iter_mut().enumerate().filter(|(i, _)| i == c || all).for_each(|(_, x)| *x = *v);
                }
            }
            if let Some((t, d)) = p.res_edge {
                if (tt - t) * d > 0.0 {
                    r.iter_mut().for_each(|x| *x = f64::NAN);
                }
            }
        });
        for i in 0..self.0.n {
            rr[i] = r[i];
        }
        log(Ev::Res { t: tt, y, yp, r });
    }
}
impl Jacobian for Prob {
    fn jac<S1, S2, S3, S4>(&self, tt: f64, cj: f64, yy: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, rr: ArrayBase<S3, Ix1>, mut jac: ArrayBase<S4, Ix2>)
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::Data<Elem = f64>,
        S3: ndarray::Data<Elem = f64>,
        S4: ndarray::DataMut<Elem = f64>,
    {
        let n = self.0.n;
        let (y, yp) = (v(&yy), v(&yp));
        let zeroed = jac.iter().all(|x| *x == 0.0);
        let mut a = vec![vec![0.0; n]; n];
        self.0.jac(tt, cj, &y, &yp, &mut a);
        PLAN.with(|p| {
            let mut p = p.borrow_mut();
            let k = p.jac_calls;
            p.jac_calls += 1;
            for (at, i, j) in &p.jac_bad {
                if *at == k {
                    for q in 0..n * n {
                        if (q / n == *i || *i >= n) && (q % n == *j || *j >= n) {
                            a[q / n][q % n] = f64::NAN;
                        }
                    }
                }
            }
        });
        // as a user would, set only the entries that are not zero
        for i in 0..n {
            for j in 0..n {
                if a[i][j] != 0.0 {
                    jac[[i, j]] = a[i][j];
                }
            }
        }
        log(Ev::Jac { t: tt, cj, y, yp, r: v(&rr), zeroed, a });
    }
}
impl Root for Prob {
    fn num_roots(&self) -> usize {
        self.0.roots.len()
    }
    fn root<S1, S2, S3>(&self, t: f64, y: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut gout: ArrayBase<S3, Ix1>)
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::Data<Elem = f64>,
        S3: ndarray::DataMut<Elem = f64>,
    {
        let (y, yp) = (v(&y), v(&yp));
        let g = self.0.root(t, &y, &yp);
        for (i, x) in g.iter().enumerate() {
            gout[i] = *x;
        }
        log(Ev::Root { t, y, yp, g });
    }
}
