//! Dot products.
use crate::*;

pub trait Dot<Rhs> {
    type Output;
    fn dot(&self, rhs: &Rhs) -> Self::Output;
}
impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix1> {
    type Output = A;
    fn dot(&self, rhs: &ArrayBase<S2, Ix1>) -> A {
        assert_eq!(self.len(), rhs.len());
        self.iter().zip(rhs.iter()).fold(A::zero(), |acc, (a, b)| acc + *a * *b)
    }
}
impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix1>> for ArrayBase<S, Ix2> {
    type Output = Array1<A>;
    fn dot(&self, rhs: &ArrayBase<S2, Ix1>) -> Array1<A> {
        self.outer_iter().map(|r| Dot::dot(&r, rhs)).collect()
    }
}
impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix2>> for ArrayBase<S, Ix1> {
    type Output = Array1<A>;
    fn dot(&self, rhs: &ArrayBase<S2, Ix2>) -> Array1<A> {
        rhs.t().outer_iter().map(|c| Dot::dot(self, &c)).collect()
    }
}
impl<A: LinalgScalar, S: Data<Elem = A>, S2: Data<Elem = A>> Dot<ArrayBase<S2, Ix2>> for ArrayBase<S, Ix2> {
    type Output = Array2<A>;
    fn dot(&self, rhs: &ArrayBase<S2, Ix2>) -> Array2<A> {
        Array2::from_shape_fn((self.nrows(), rhs.ncols()), |(i, j)| Dot::dot(&self.row(i), &rhs.column(j)))
    }
}
impl<S: Data, D: Dimension> ArrayBase<S, D> {
    pub fn dot<Rhs>(&self, rhs: &Rhs) -> <Self as Dot<Rhs>>::Output
    where
        Self: Dot<Rhs>,
    {
        Dot::dot(self, rhs)
    }
}
pub fn general_mat_vec_mul<A: LinalgScalar, S1: Data<Elem = A>, S2: Data<Elem = A>, S3: DataMut<Elem = A>>(
    alpha: A,
    a: &ArrayBase<S1, Ix2>,
    x: &ArrayBase<S2, Ix1>,
    beta: A,
    y: &mut ArrayBase<S3, Ix1>,
) {
    let ax = a.dot(x);
    y.zip_mut_with(&ax, |y, v| *y = *y * beta + *v * alpha);
}
pub fn general_mat_mul<A: LinalgScalar, S1: Data<Elem = A>, S2: Data<Elem = A>, S3: DataMut<Elem = A>>(
    alpha: A,
    a: &ArrayBase<S1, Ix2>,
    b: &ArrayBase<S2, Ix2>,
    beta: A,
    c: &mut ArrayBase<S3, Ix2>,
) {
    let ab = a.dot(b);
    c.zip_mut_with(&ab, |y, v| *y = *y * beta + *v * alpha);
}
