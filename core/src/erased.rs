//! Size- and scalar-erased access to the code under test, so that one monitor serves every dimension.
//! All values cross the boundary as f64 (f32 values embed exactly).
use crate::fl::Fl;
use linear::{Dense, LSolver};
use nalgebra::{Const, DimNameAdd, Matrix, SMatrix, SVector, Storage, StorageMut, U1};
use nonlinear::{Error as NErr, NLProblem, NLSolver, Newton};

pub trait DynDense: Send {
    fn n(&self) -> usize;
    /// factor the row-major matrix in place
    fn setup(&mut self, a: &mut [f64]) -> Result<(), (usize, String)>;
    fn solve(&self, a: &mut [f64], x: &mut [f64], b: &mut [f64], tol: f64) -> bool;
    fn fork(&self) -> Box<dyn DynDense>;
}
pub struct WD<T, const N: usize> {
    d: Dense<Const<N>>,
    _t: std::marker::PhantomData<T>,
}
pub fn mat_in<T: Fl, const N: usize>(a: &[f64]) -> SMatrix<T, N, N> {
    SMatrix::from_fn(|i, j| T::of(a[i * N + j]))
}
pub fn mat_out<T: Fl, const N: usize>(m: &SMatrix<T, N, N>, a: &mut [f64]) {
    for i in 0..N {
        for j in 0..N {
            a[i * N + j] = m[(i, j)].f();
        }
    }
}
pub fn vec_in<T: Fl, const N: usize>(a: &[f64]) -> SVector<T, N> {
    SVector::from_fn(|i, _| T::of(a[i]))
}
pub fn vec_out<T: Fl, const N: usize>(v: &SVector<T, N>, a: &mut [f64]) {
    for i in 0..N {
        a[i] = v[i].f();
    }
}
impl<T: Fl, const N: usize> DynDense for WD<T, N> {
    fn n(&self) -> usize {
        N
    }
    fn setup(&mut self, a: &mut [f64]) -> Result<(), (usize, String)> {
        let mut m = mat_in::<T, N>(a);
        let r = self.d.setup(&mut m);
        mat_out(&m, a);
        r.map_err(|e| {
            let s = e.to_string();
            let linear::Error::LUFactFail { col } = e;
            (col, s)
        })
    }
    fn solve(&self, a: &mut [f64], x: &mut [f64], b: &mut [f64], tol: f64) -> bool {
        let m = mat_in::<T, N>(a);
        let mut xv = vec_in::<T, N>(x);
        let bv = vec_in::<T, N>(b);
        let r = self.d.solve(&m, &mut xv, &bv, T::of(tol));
        vec_out(&xv, x);
        vec_out(&bv, b);
        mat_out(&m, a);
        r.is_ok()
    }
    fn fork(&self) -> Box<dyn DynDense> {
        Box::new(WD::<T, N> { d: self.d.clone(), _t: Default::default() })
    }
}
fn mk<T: Fl, const N: usize>() -> Box<dyn DynDense> {
    Box::new(WD::<T, N> {
        d: <Dense<Const<N>> as LSolver<T, Const<N>>>::new(),
        _t: Default::default(),
    })
}
#[cfg(not(miri))]
pub const LSIZES: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 20, 24, 32, 33, 48, 64, 11, 15, 23, 100, 14, 18, 19, 22, 65];
#[cfg(miri)]
pub const LSIZES: &[usize] = &[1, 2, 3, 4, 5];
macro_rules! disp {
    ($f:ident, $T:ty, $n:expr; $($k:literal)*) => { match $n { $($k => $f::<$T, $k>(),)* n => panic!("no size {n}") } };
}
pub fn new_dense(is32: bool, n: usize) -> Box<dyn DynDense> {
    #[cfg(not(miri))]
    {
        if is32 {
            disp!(mk, f32, n; 1 2 3 4 5 6 7 8 9 10 12 13 16 17 20 24 32 33 48 64 11 15 23 100 14 18 19 22 65 300)
        } else {
            disp!(mk, f64, n; 1 2 3 4 5 6 7 8 9 10 12 13 16 17 20 24 32 33 48 64 11 15 23 100 14 18 19 22 65 300)
        }
    }
    #[cfg(miri)]
    {
        if is32 {
            disp!(mk, f32, n; 1 2 3 4 5)
        } else {
            disp!(mk, f64, n; 1 2 3 4 5)
        }
    }
}

// ---------------------------------------------------------------- Newton

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum E {
    Continue,
    ConvRec,
    Illegal,
    Lin(usize),
}
impl E {
    pub fn make(self) -> NErr {
        match self {
            E::Continue => NErr::Continue {},
            E::ConvRec => NErr::ConvergenceRecover {},
            E::Illegal => NErr::IllegalInput {},
            E::Lin(c) => NErr::LinearSetupFailed { source: linear::Error::LUFactFail { col: c } },
        }
    }
    pub fn of(e: &NErr) -> E {
        match e {
            NErr::Continue {} => E::Continue,
            NErr::ConvergenceRecover {} => E::ConvRec,
            NErr::IllegalInput {} => E::Illegal,
            NErr::LinearSetupFailed { source: linear::Error::LUFactFail { col } } => E::Lin(*col),
        }
    }
}
pub struct Counters {
    pub niters: usize,
    pub cur: usize,
    pub nconv: usize,
}
pub trait DynProblem {
    fn sys(&mut self, y: &[f64], f: &mut [f64]) -> Result<(), E>;
    fn setup(&mut self, y: &[f64], f: &[f64], jbad: bool) -> Result<bool, E>;
    fn solve(&mut self, y: &[f64], b: &mut [f64]) -> Result<(), E>;
    fn ctest(&mut self, c: Counters, y: &[f64], del: &[f64], tol: f64, w: &[f64]) -> Result<bool, E>;
}
struct PA<'a>(&'a mut dyn DynProblem);
fn rd<T: Fl, const N: usize, S: Storage<T, Const<N>, U1>>(m: &Matrix<T, Const<N>, U1, S>) -> [f64; N] {
    std::array::from_fn(|i| m[i].f())
}
impl<'a, T: Fl, const N: usize> NLProblem<T, Const<N>> for PA<'a> {
    fn sys<SA, SB>(
        &mut self,
        y: &Matrix<T, Const<N>, U1, SA>,
        f: &mut Matrix<T, Const<N>, U1, SB>,
    ) -> Result<(), NErr>
    where
        SA: Storage<T, Const<N>, U1>,
        SB: StorageMut<T, Const<N>, U1>,
    {
        let mut o = rd(f);
        let r = self.0.sys(&rd(y), &mut o);
        for i in 0..N {
            f[i] = T::of(o[i]);
        }
        r.map_err(E::make)
    }
    fn setup<SA, SB>(
        &mut self,
        y: &Matrix<T, Const<N>, U1, SA>,
        f: &Matrix<T, Const<N>, U1, SB>,
        jbad: bool,
    ) -> Result<bool, NErr>
    where
        SA: Storage<T, Const<N>, U1>,
        SB: Storage<T, Const<N>, U1>,
    {
        self.0.setup(&rd(y), &rd(f), jbad).map_err(E::make)
    }
    fn solve<SA, SB>(
        &mut self,
        y: &Matrix<T, Const<N>, U1, SA>,
        b: &mut Matrix<T, Const<N>, U1, SB>,
    ) -> Result<(), NErr>
    where
        SA: Storage<T, Const<N>, U1>,
        SB: StorageMut<T, Const<N>, U1>,
    {
        let mut o = rd(b);
        let r = self.0.solve(&rd(y), &mut o);
        for i in 0..N {
            b[i] = T::of(o[i]);
        }
        r.map_err(E::make)
    }
    fn ctest<NLS, SA, SB, SC>(
        &mut self,
        solver: &NLS,
        y: &Matrix<T, Const<N>, U1, SA>,
        del: &Matrix<T, Const<N>, U1, SB>,
        tol: T,
        ewt: &Matrix<T, Const<N>, U1, SC>,
    ) -> Result<bool, NErr>
    where
        NLS: NLSolver<T, Const<N>>,
        SA: Storage<T, Const<N>, U1>,
        SB: Storage<T, Const<N>, U1>,
        SC: Storage<T, Const<N>, U1>,
    {
        let c = Counters {
            niters: solver.get_num_iters(),
            cur: solver.get_cur_iter(),
            nconv: solver.get_num_conv_fails(),
        };
        self.0.ctest(c, &rd(y), &rd(del), tol.f(), &rd(ewt)).map_err(E::make)
    }
}
pub trait DynNewton: Send {
    fn solve(
        &mut self,
        p: &mut dyn DynProblem,
        y0: &mut [f64],
        y: &mut [f64],
        w: &mut [f64],
        tol: f64,
        call: bool,
        strided: bool,
    ) -> Result<(), E>;
    fn counters(&self) -> Counters;
    fn fork(&self) -> Box<dyn DynNewton>;
}
pub struct WN<T: Fl, const N: usize>
where
    Const<N>: DimNameAdd<Const<N>>,
{
    s: Newton<T, Const<N>>,
}
impl<T: Fl, const N: usize> DynNewton for WN<T, N>
where
    Const<N>: DimNameAdd<Const<N>>,
{
    fn solve(
        &mut self,
        p: &mut dyn DynProblem,
        y0: &mut [f64],
        y: &mut [f64],
        w: &mut [f64],
        tol: f64,
        call: bool,
        strided: bool,
    ) -> Result<(), E> {
        let mut pa = PA(p);
        let y0v = vec_in::<T, N>(y0);
        let wv = vec_in::<T, N>(w);
        let r = if strided {
            // y lives in the second row of a wider matrix: row stride 3, guarded on all sides
            let mut big = nalgebra::OMatrix::<T, nalgebra::Dyn, nalgebra::Dyn>::from_element(3 * N + 2, 3, T::of(-7.25));
            let mut bw = big.clone();
            for i in 0..N {
                big[(1 + 3 * i, 1)] = T::of(y[i]);
                bw[(1 + 3 * i, 1)] = wv[i];
            }
            let r = {
                let wview = bw.fixed_view_with_steps::<N, 1>((1, 1), (2, 0));
                let mut yv = big.fixed_view_with_steps_mut::<N, 1>((1, 1), (2, 0));
                self.s.solve(&mut pa, &y0v, &mut yv, &wview, T::of(tol), call)
            };
            for c in 0..3 {
                for rr in 0..3 * N + 2 {
                    let inside = c == 1 && rr >= 1 && (rr - 1) % 3 == 0 && (rr - 1) / 3 < N;
                    if inside {
                        y[(rr - 1) / 3] = big[(rr, c)].f();
                    } else if big[(rr, c)] != T::of(-7.25) || bw[(rr, c)] != T::of(-7.25) {
                        panic!("stray write at ({rr},{c}) outside the strided output vector");
                    }
                }
            }
            r
        } else {
            let mut yv = vec_in::<T, N>(y);
            let r = self.s.solve(&mut pa, &y0v, &mut yv, &wv, T::of(tol), call);
            vec_out(&yv, y);
            r
        };
        vec_out(&y0v, y0);
        vec_out(&wv, w);
        r.map_err(|e| E::of(&e))
    }
    fn counters(&self) -> Counters {
        Counters {
            niters: self.s.get_num_iters(),
            cur: self.s.get_cur_iter(),
            nconv: self.s.get_num_conv_fails(),
        }
    }
    fn fork(&self) -> Box<dyn DynNewton> {
        Box::new(WN::<T, N> { s: self.s.clone() })
    }
}
pub const NSIZES: &[usize] = &[1, 2, 3, 4, 5, 6, 8, 12, 7, 9, 10, 11, 13, 17, 33, 60];
macro_rules! dispn {
    ($T:ty, $n:expr, $m:expr; $($k:literal)*) => { match $n { $($k => Box::new(WN::<$T, $k> { s: <Newton<$T, Const<$k>> as NLSolver<$T, Const<$k>>>::new($m) }) as Box<dyn DynNewton>,)* n => panic!("no size {n}") } };
}
pub fn new_newton(is32: bool, n: usize, maxiters: usize) -> Box<dyn DynNewton> {
    if is32 {
        dispn!(f32, n, maxiters; 1 2 3 4 5 6 8 12 7 9 10 11 13 17 33 60)
    } else {
        dispn!(f64, n, maxiters; 1 2 3 4 5 6 8 12 7 9 10 11 13 17 33 60)
    }
}
