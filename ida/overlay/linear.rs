//! The interface the integrator uses for its linear solver, forwarded to the real `linear` crate.
use failure::Fail;
use nalgebra::{Const, Matrix, OMatrix, OVector};
use ndarray::prelude::*;
use real_linear::LSolver as RealLSolver;

#[derive(Debug, Clone, Fail)]
pub enum Error {
    #[fail(display = "A singular matrix was encountered during a LU factorization (col {})", col)]
    LUFactFail { col: usize },
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum LSolverType {
    Direct,
    Iterative,
    MatrixIterative,
}

pub trait LSolver<Scalar> {
    fn new(size: usize) -> Self;
    fn get_type(&self) -> LSolverType;
    fn set_scaling_vectors<S1, S2>(&mut self, _s1: ArrayBase<S1, Ix1>, _s2: ArrayBase<S2, Ix1>)
    where
        S1: ndarray::Data<Elem = Scalar>,
        S2: ndarray::Data<Elem = Scalar>,
    {
    }
    fn setup<S1>(&mut self, mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = Scalar>;
    fn solve<S1, S2, S3>(
        &self,
        mat_a: ArrayBase<S1, Ix2>,
        x: ArrayBase<S2, Ix1>,
        b: ArrayBase<S3, Ix1>,
        tol: Scalar,
    ) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = Scalar>,
        S2: ndarray::DataMut<Elem = Scalar>,
        S3: ndarray::Data<Elem = Scalar>;
    fn num_iters(&self) -> usize {
        0
    }
    fn res_norm(&self) -> Scalar
    where
        Scalar: num_traits::Zero,
    {
        Scalar::zero()
    }
}

macro_rules! dense {
    ($($v:ident $n:literal)*) => {
        #[derive(Clone, Debug)]
        enum Inner { $( $v(real_linear::Dense<Const<$n>>), )* }
        impl Inner {
            fn new<T: nalgebra::RealField + Copy>(size: usize) -> Self {
                match size {
                    $( $n => Inner::$v(<real_linear::Dense<Const<$n>> as RealLSolver<T, Const<$n>>>::new()), )*
                    _ => panic!("the adapter does not support the size {}", size),
                }
            }
            fn setup<T: nalgebra::RealField + Copy>(&mut self, a: &mut ArrayViewMut2<T>) -> Result<(), real_linear::Error> {
                match self { $( Inner::$v(d) => {
                    let mut m = OMatrix::<T, Const<$n>, Const<$n>>::from_fn(|i, j| a[[i, j]]);
                    let r = d.setup(&mut m);
                    for i in 0..$n { for j in 0..$n { a[[i, j]] = m[(i, j)]; } }
                    r
                } )* }
            }
            fn solve<T: nalgebra::RealField + Copy>(&self, a: &ArrayView2<T>, x: &mut ArrayViewMut1<T>, b: &ArrayView1<T>, tol: T) -> Result<(), real_linear::Error> {
                match self { $( Inner::$v(d) => {
                    let m = OMatrix::<T, Const<$n>, Const<$n>>::from_fn(|i, j| a[[i, j]]);
                    let mut xx = OVector::<T, Const<$n>>::from_fn(|i, _| x[i]);
                    let bb = OVector::<T, Const<$n>>::from_fn(|i, _| b[i]);
                    let r = RealLSolver::<T, Const<$n>>::solve(d, &m, &mut xx, &bb, tol);
                    for i in 0..$n { x[i] = xx[i]; }
                    r
                } )* }
            }
        }
    };
}
dense! { N1 1 N2 2 N3 3 N4 4 N5 5 N6 6 N7 7 N8 8 N9 9 N10 10 N12 12 N16 16 N17 17 N24 24 N33 33 }

/// Dense direct solver of runtime size, forwarding to `linear::Dense<Const<N>>`.
#[derive(Clone, Debug)]
pub struct Dense<Scalar> {
    inner: Inner,
    _p: std::marker::PhantomData<Scalar>,
}

fn conv(e: real_linear::Error) -> failure::Error {
    #[allow(unreachable_patterns)]
    match e {
        real_linear::Error::LUFactFail { col } => Error::LUFactFail { col }.into(),
        e => failure::err_msg(format!("{:?}", e)),
    }
}

impl<T> LSolver<T> for Dense<T>
where
    T: nalgebra::RealField + Copy,
{
    fn new(size: usize) -> Self {
        Dense { inner: Inner::new::<T>(size), _p: std::marker::PhantomData }
    }
    fn get_type(&self) -> LSolverType {
        LSolverType::Direct
    }
    fn setup<S1>(&mut self, mut mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = T>,
    {
        self.inner.setup(&mut mat_a.view_mut()).map_err(conv)
    }
    fn solve<S1, S2, S3>(
        &self,
        mat_a: ArrayBase<S1, Ix2>,
        mut x: ArrayBase<S2, Ix1>,
        b: ArrayBase<S3, Ix1>,
        tol: T,
    ) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = T>,
        S2: ndarray::DataMut<Elem = T>,
        S3: ndarray::Data<Elem = T>,
    {
        self.inner.solve(&mat_a.view(), &mut x.view_mut(), &b.view(), tol).map_err(conv)
    }
}
#[allow(unused)]
type Unused = Matrix<f64, Const<1>, Const<1>, nalgebra::ArrayStorage<f64, 1, 1>>;
