//! The interface the integrator uses for its nonlinear solver, forwarded to the real `nonlinear` crate.
use crate::traits::ModelSpec;
use failure::Fail;
use nalgebra::{Const, Matrix, OVector, Storage, StorageMut, U1};
use ndarray::prelude::*;
use real_nonlinear::{NLProblem as RealNLProblem, NLSolver as RealNLSolver};

#[derive(Debug, Clone, Fail)]
pub enum Error {
    #[fail(display = "not converged, keep iterating")]
    Continue {},
    #[fail(display = "convergence failure, try to recover")]
    ConvergenceRecover {},
    #[fail(display = "illegal function input")]
    IllegalInput {},
}

pub trait NLProblem<P: ModelSpec> {
    fn sys<S1, S2>(&mut self, ycor: ArrayBase<S1, Ix1>, res: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>;

    fn setup<S1, S2>(&mut self, ycor: ArrayBase<S1, Ix1>, res: ArrayBase<S2, Ix1>, jbad: bool) -> Result<bool, failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::Data<Elem = P::Scalar>;

    fn solve<S1, S2>(&mut self, ycor: ArrayBase<S1, Ix1>, delta: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>;

    fn ctest<S1, S2, S3, NLS>(
        &mut self,
        solver: &NLS,
        y: ArrayBase<S1, Ix1>,
        del: ArrayBase<S2, Ix1>,
        tol: P::Scalar,
        ewt: ArrayBase<S3, Ix1>,
    ) -> Result<bool, failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::Data<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>,
        NLS: NLSolver<P>;
}

pub trait NLSolver<P: ModelSpec> {
    fn new(size: usize, maxiters: usize) -> Self;

    fn setup<S1>(&mut self, _y: &mut ArrayBase<S1, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = P::Scalar>,
    {
        Ok(())
    }

    fn solve<NLP, S1, S2, S3>(
        &mut self,
        problem: &mut NLP,
        y0: ArrayBase<S1, Ix1>,
        y: ArrayBase<S2, Ix1>,
        w: ArrayBase<S3, Ix1>,
        tol: P::Scalar,
        call_lsetup: bool,
    ) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>;

    fn get_num_iters(&self) -> usize {
        0
    }
    fn get_cur_iter(&self) -> usize;
    fn get_num_conv_fails(&self) -> usize {
        0
    }
}

pub mod newton {
    use super::*;

    fn to_nd<T: Copy + nalgebra::Scalar, const N: usize, S: Storage<T, Const<N>, U1>>(m: &Matrix<T, Const<N>, U1, S>) -> Array1<T> {
        (0..N).map(|i| m[i]).collect()
    }

    /// What `ctest` needs to know of the solver.
    struct Cur(usize);
    impl<P: ModelSpec> NLSolver<P> for Cur {
        fn new(_: usize, _: usize) -> Self {
            Cur(0)
        }
        fn solve<NLP, S1, S2, S3>(
            &mut self,
            _: &mut NLP,
            _: ArrayBase<S1, Ix1>,
            _: ArrayBase<S2, Ix1>,
            _: ArrayBase<S3, Ix1>,
            _: P::Scalar,
            _: bool,
        ) -> Result<(), failure::Error>
        where
            NLP: NLProblem<P>,
            S1: ndarray::Data<Elem = P::Scalar>,
            S2: ndarray::DataMut<Elem = P::Scalar>,
            S3: ndarray::Data<Elem = P::Scalar>,
        {
            unreachable!()
        }
        fn get_cur_iter(&self) -> usize {
            self.0
        }
    }

    /// Presents the integrator's problem to the real solver. Errors of the integrator that the real error type
    /// cannot carry are kept aside and given back when the solve ends.
    struct Proxy<'a, P: ModelSpec, NLP: NLProblem<P>> {
        p: &'a mut NLP,
        kept: Option<failure::Error>,
        _m: std::marker::PhantomData<P>,
    }
    impl<'a, P: ModelSpec, NLP: NLProblem<P>> Proxy<'a, P, NLP> {
        fn conv<T>(&mut self, r: Result<T, failure::Error>) -> Result<T, real_nonlinear::Error> {
            r.map_err(|e| match e.downcast_ref::<Error>() {
                Some(Error::ConvergenceRecover {}) => {
                    self.kept = Some(e);
                    real_nonlinear::Error::ConvergenceRecover {}
                }
                _ => {
                    let recoverable = format!("{:?}", e).contains("RecoverableFail");
                    self.kept = Some(e);
                    if recoverable {
                        real_nonlinear::Error::ConvergenceRecover {}
                    } else {
                        real_nonlinear::Error::IllegalInput {}
                    }
                }
            })
        }
    }
    impl<'a, T, P, NLP, const N: usize> RealNLProblem<T, Const<N>> for Proxy<'a, P, NLP>
    where
        T: nalgebra::RealField + Copy,
        P: ModelSpec<Scalar = T>,
        NLP: NLProblem<P>,
    {
        fn sys<A, B>(&mut self, y: &Matrix<T, Const<N>, U1, A>, f: &mut Matrix<T, Const<N>, U1, B>) -> Result<(), real_nonlinear::Error>
        where
            A: Storage<T, Const<N>, U1>,
            B: StorageMut<T, Const<N>, U1>,
        {
            self.kept = None;
            let yy = to_nd(y);
            let mut ff = to_nd(f);
            let r = self.p.sys(yy, ff.view_mut());
            for i in 0..N {
                f[i] = ff[i];
            }
            self.conv(r)
        }
        fn setup<A, B>(&mut self, y: &Matrix<T, Const<N>, U1, A>, f: &Matrix<T, Const<N>, U1, B>, jbad: bool) -> Result<bool, real_nonlinear::Error>
        where
            A: Storage<T, Const<N>, U1>,
            B: Storage<T, Const<N>, U1>,
        {
            let r = self.p.setup(to_nd(y), to_nd(f), jbad);
            self.conv(r)
        }
        fn solve<A, B>(&mut self, y: &Matrix<T, Const<N>, U1, A>, b: &mut Matrix<T, Const<N>, U1, B>) -> Result<(), real_nonlinear::Error>
        where
            A: Storage<T, Const<N>, U1>,
            B: StorageMut<T, Const<N>, U1>,
        {
            let mut bb = to_nd(b);
            let r = self.p.solve(to_nd(y), bb.view_mut());
            for i in 0..N {
                b[i] = bb[i];
            }
            self.conv(r)
        }
        fn ctest<NLS, A, B, C>(
            &mut self,
            solver: &NLS,
            y: &Matrix<T, Const<N>, U1, A>,
            del: &Matrix<T, Const<N>, U1, B>,
            tol: T,
            ewt: &Matrix<T, Const<N>, U1, C>,
        ) -> Result<bool, real_nonlinear::Error>
        where
            NLS: RealNLSolver<T, Const<N>>,
            A: Storage<T, Const<N>, U1>,
            B: Storage<T, Const<N>, U1>,
            C: Storage<T, Const<N>, U1>,
        {
            let r = self.p.ctest(&Cur(solver.get_cur_iter()), to_nd(y), to_nd(del), tol, to_nd(ewt));
            self.conv(r)
        }
    }

    macro_rules! newton {
        ($($v:ident $n:literal)*) => {
            #[derive(Clone, Debug)]
            enum Inner<T: nalgebra::Scalar> { $( $v(real_nonlinear::Newton<T, Const<$n>>), )* }
            impl<T: nalgebra::RealField + Copy> Inner<T> {
                fn new(size: usize, maxiters: usize) -> Self {
                    match size {
                        $( $n => Inner::$v(RealNLSolver::<T, Const<$n>>::new(maxiters)), )*
                        _ => panic!("the adapter does not support the size {}", size),
                    }
                }
                fn solve<P: ModelSpec<Scalar = T>, NLP: NLProblem<P>>(
                    &mut self, problem: &mut NLP, y0: ArrayView1<T>, mut y: ArrayViewMut1<T>, w: ArrayView1<T>, tol: T, call_lsetup: bool,
                ) -> Result<(), failure::Error> {
                    let mut proxy = Proxy { p: problem, kept: None, _m: std::marker::PhantomData };
                    let r = match self { $( Inner::$v(s) => {
                        let y0 = OVector::<T, Const<$n>>::from_fn(|i, _| y0[i]);
                        let mut yy = OVector::<T, Const<$n>>::from_fn(|i, _| y[i]);
                        let ww = OVector::<T, Const<$n>>::from_fn(|i, _| w[i]);
                        let r = s.solve(&mut proxy, &y0, &mut yy, &ww, tol, call_lsetup);
                        for i in 0..$n { y[i] = yy[i]; }
                        r
                    } )* };
                    match r {
                        Ok(()) => Ok(()),
                        Err(e) => Err(match (e, proxy.kept) {
                            (real_nonlinear::Error::ConvergenceRecover {}, None) => Error::ConvergenceRecover {}.into(),
                            (_, Some(k)) => k,
                            (e, None) => failure::err_msg(format!("{:?}", e)),
                        }),
                    }
                }
                fn iters(&self) -> (usize, usize, usize) {
                    match self { $( Inner::$v(s) => (s.get_num_iters(), s.get_cur_iter(), s.get_num_conv_fails()), )* }
                }
            }
        };
    }
    newton! { N1 1 N2 2 N3 3 N4 4 N5 5 N6 6 N7 7 N8 8 N9 9 N10 10 N12 12 N16 16 N17 17 N24 24 N33 33 }

    /// Newton solver of runtime size, forwarding to `nonlinear::Newton<T, Const<N>>`.
    #[derive(Clone, Debug)]
    pub struct Newton<P: ModelSpec>
    where
        P::Scalar: nalgebra::Scalar,
    {
        inner: Inner<P::Scalar>,
    }

    impl<P: ModelSpec> NLSolver<P> for Newton<P>
    where
        P::Scalar: nalgebra::RealField + Copy,
    {
        fn new(size: usize, maxiters: usize) -> Self {
            Newton { inner: Inner::new(size, maxiters) }
        }
        fn solve<NLP, S1, S2, S3>(
            &mut self,
            problem: &mut NLP,
            y0: ArrayBase<S1, Ix1>,
            mut y: ArrayBase<S2, Ix1>,
            w: ArrayBase<S3, Ix1>,
            tol: P::Scalar,
            call_lsetup: bool,
        ) -> Result<(), failure::Error>
        where
            NLP: NLProblem<P>,
            S1: ndarray::Data<Elem = P::Scalar>,
            S2: ndarray::DataMut<Elem = P::Scalar>,
            S3: ndarray::Data<Elem = P::Scalar>,
        {
            self.inner.solve::<P, NLP>(problem, y0.view(), y.view_mut(), w.view(), tol, call_lsetup)
        }
        fn get_num_iters(&self) -> usize {
            self.inner.iters().0
        }
        fn get_cur_iter(&self) -> usize {
            self.inner.iters().1
        }
        fn get_num_conv_fails(&self) -> usize {
            self.inner.iters().2
        }
    }
}
pub use newton::Newton;
