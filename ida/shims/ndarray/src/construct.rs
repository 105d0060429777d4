//! Constructors.
use crate::*;
use num_traits::{Float, One, Zero};
use std::marker::PhantomData;

impl<S: DataOwned, D: Dimension> ArrayBase<S, D> {
    pub(crate) fn from_parts(v: Vec<S::Elem>, dim: D, fortran: bool) -> Self {
        assert_eq!(v.len(), dim.size());
        let strides = if fortran { dim.f_strides() } else { dim.c_strides() };
        let (data, ptr) = S::new(v);
        ArrayBase { data, ptr, dim, strides }
    }
    pub fn from_elem<Sh: ShapeBuilder<Dim = D>>(shape: Sh, elem: S::Elem) -> Self
    where
        S::Elem: Clone,
    {
        let s = shape.into_shape();
        let n = s.dim.size();
        Self::from_parts(vec![elem; n], s.dim, s.fortran)
    }
    pub fn zeros<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        S::Elem: Clone + Zero,
    {
        Self::from_elem(shape, S::Elem::zero())
    }
    /// the stand-in fills with zero bytes
    pub unsafe fn uninitialized<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        S::Elem: Copy,
    {
        let s = shape.into_shape();
        let v = (0..s.dim.size()).map(|_| std::mem::zeroed()).collect();
        Self::from_parts(v, s.dim, s.fortran)
    }
    pub fn ones<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        S::Elem: Clone + One,
    {
        Self::from_elem(shape, S::Elem::one())
    }
    pub fn default<Sh: ShapeBuilder<Dim = D>>(shape: Sh) -> Self
    where
        S::Elem: Default,
    {
        let s = shape.into_shape();
        let v = (0..s.dim.size()).map(|_| S::Elem::default()).collect();
        Self::from_parts(v, s.dim, s.fortran)
    }
    pub fn from_shape_vec<Sh: ShapeBuilder<Dim = D>>(shape: Sh, v: Vec<S::Elem>) -> Result<Self, ShapeError> {
        let s = shape.into_shape();
        if v.len() != s.dim.size() {
            return Err(ShapeError::shape());
        }
        Ok(Self::from_parts(v, s.dim, s.fortran))
    }
    pub fn from_shape_fn<Sh: ShapeBuilder<Dim = D>, F: FnMut(D::Pattern) -> S::Elem>(shape: Sh, mut f: F) -> Self {
        let s = shape.into_shape();
        let mut v = Vec::with_capacity(s.dim.size());
        let mut idx = D::zeros(s.dim.ndim());
        if s.dim.size() > 0 {
            loop {
                v.push(f(idx.clone().into_pattern()));
                if !advance(s.dim.slice(), idx.slice_mut()) {
                    break;
                }
            }
        }
        Self::from_parts(v, s.dim, false)
    }
}

impl<S: DataOwned> ArrayBase<S, Ix1> {
    pub fn from_vec(v: Vec<S::Elem>) -> Self {
        let n = v.len();
        Self::from_parts(v, Ix1(n), false)
    }
    pub fn from_iter<I: IntoIterator<Item = S::Elem>>(it: I) -> Self {
        Self::from_vec(it.into_iter().collect())
    }
    pub fn linspace(start: S::Elem, end: S::Elem, n: usize) -> Self
    where
        S::Elem: Float,
    {
        let d = if n > 1 { (end - start) / <S::Elem as num_traits::NumCast>::from(n - 1).unwrap() } else { S::Elem::zero() };
        Self::from_vec((0..n).map(|i| start + d * <S::Elem as num_traits::NumCast>::from(i).unwrap()).collect())
    }
    pub fn range(start: S::Elem, end: S::Elem, step: S::Elem) -> Self
    where
        S::Elem: Float,
    {
        let n = num_traits::ToPrimitive::to_usize(&((end - start) / step).ceil()).unwrap_or(0);
        Self::from_vec((0..n).map(|i| start + step * <S::Elem as num_traits::NumCast>::from(i).unwrap()).collect())
    }
}
impl<S: DataOwned> ArrayBase<S, Ix2> {
    pub fn eye(n: usize) -> Self
    where
        S::Elem: Clone + Zero + One,
    {
        Self::from_shape_fn((n, n), |(i, j)| if i == j { S::Elem::one() } else { S::Elem::zero() })
    }
    pub fn from_diag<S2: Data<Elem = S::Elem>>(d: &ArrayBase<S2, Ix1>) -> Self
    where
        S::Elem: Clone + Zero,
    {
        let n = d.len();
        Self::from_shape_fn((n, n), |(i, j)| if i == j { d[i].clone() } else { S::Elem::zero() })
    }
}

impl<A> From<Vec<A>> for Array1<A> {
    fn from(v: Vec<A>) -> Self {
        Self::from_vec(v)
    }
}
impl<A, const N: usize> From<[A; N]> for Array1<A> {
    fn from(v: [A; N]) -> Self {
        Self::from_vec(v.into_iter().collect())
    }
}
impl<A: Clone, const N: usize> From<Vec<[A; N]>> for Array2<A> {
    fn from(v: Vec<[A; N]>) -> Self {
        let n = v.len();
        Self::from_parts(v.into_iter().flatten().collect(), Ix2(n, N), false)
    }
}
impl<A, const N: usize, const M: usize> From<[[A; N]; M]> for Array2<A> {
    fn from(v: [[A; N]; M]) -> Self {
        Self::from_parts(v.into_iter().flatten().collect(), Ix2(M, N), false)
    }
}
impl<A> std::iter::FromIterator<A> for Array1<A> {
    fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Self {
        Self::from_vec(it.into_iter().collect())
    }
}
impl<A, D: Dimension> Default for Array<A, D>
where
    A: Default,
{
    fn default() -> Self {
        Array::<A, D>::default(D::default())
    }
}
impl<'a, A> From<&'a [A]> for ArrayView1<'a, A> {
    fn from(s: &'a [A]) -> Self {
        unsafe { view_from(s.as_ptr() as *mut A, Ix1(s.len())) }
    }
}
impl<'a, A> From<&'a Vec<A>> for ArrayView1<'a, A> {
    fn from(s: &'a Vec<A>) -> Self {
        Self::from(&s[..])
    }
}
impl<'a, A, const N: usize> From<&'a [A; N]> for ArrayView1<'a, A> {
    fn from(s: &'a [A; N]) -> Self {
        Self::from(&s[..])
    }
}
impl<'a, A> From<&'a mut [A]> for ArrayViewMut1<'a, A> {
    fn from(s: &'a mut [A]) -> Self {
        let n = s.len();
        ArrayBase {
            data: ViewRepr { life: PhantomData },
            ptr: std::ptr::NonNull::new(s.as_mut_ptr()).unwrap(),
            dim: Ix1(n),
            strides: Ix1(1),
        }
    }
}
impl<'a, A> From<&'a mut Vec<A>> for ArrayViewMut1<'a, A> {
    fn from(s: &'a mut Vec<A>) -> Self {
        Self::from(&mut s[..])
    }
}
impl<'a, A, S: Data<Elem = A>, D: Dimension> From<&'a ArrayBase<S, D>> for ArrayView<'a, A, D> {
    fn from(a: &'a ArrayBase<S, D>) -> Self {
        a.view()
    }
}
impl<'a, A, S: DataMut<Elem = A>, D: Dimension> From<&'a mut ArrayBase<S, D>> for ArrayViewMut<'a, A, D> {
    fn from(a: &'a mut ArrayBase<S, D>) -> Self {
        a.view_mut()
    }
}
unsafe fn view_from<'a, A, D: Dimension>(p: *mut A, dim: D) -> ArrayView<'a, A, D> {
    let strides = dim.c_strides();
    ArrayBase { data: ViewRepr { life: PhantomData }, ptr: std::ptr::NonNull::new(p).unwrap(), dim, strides }
}
impl<'a, A, D: Dimension> ArrayView<'a, A, D> {
    pub fn from_shape<Sh: ShapeBuilder<Dim = D>>(shape: Sh, xs: &'a [A]) -> Result<Self, ShapeError> {
        let s = shape.into_shape();
        if s.dim.size() > xs.len() {
            return Err(ShapeError::shape());
        }
        let mut v = unsafe { view_from(xs.as_ptr() as *mut A, s.dim) };
        if s.fortran {
            v.strides = v.dim.f_strides();
        }
        Ok(v)
    }
}
impl<'a, A, D: Dimension> ArrayViewMut<'a, A, D> {
    pub fn from_shape<Sh: ShapeBuilder<Dim = D>>(shape: Sh, xs: &'a mut [A]) -> Result<Self, ShapeError> {
        let s = shape.into_shape();
        if s.dim.size() > xs.len() {
            return Err(ShapeError::shape());
        }
        let strides = if s.fortran { s.dim.f_strides() } else { s.dim.c_strides() };
        Ok(ArrayBase {
            data: ViewRepr { life: PhantomData },
            ptr: std::ptr::NonNull::new(xs.as_mut_ptr()).unwrap(),
            dim: s.dim,
            strides,
        })
    }
}

pub fn arr0<A>(x: A) -> Array0<A> {
    Array0::from_parts(vec![x], Ix0(), false)
}
pub fn arr1<A: Clone>(x: &[A]) -> Array1<A> {
    Array1::from_vec(x.to_vec())
}
pub fn arr2<A: Clone, const N: usize>(x: &[[A; N]]) -> Array2<A> {
    Array2::from(x.to_vec())
}
pub fn aview1<A>(x: &[A]) -> ArrayView1<'_, A> {
    ArrayView1::from(x)
}
pub fn aview_mut1<A>(x: &mut [A]) -> ArrayViewMut1<'_, A> {
    ArrayViewMut1::from(x)
}
pub fn arr2_impl<A>(x: Vec<Vec<A>>) -> Array2<A> {
    let (m, n) = (x.len(), x.first().map_or(0, |r| r.len()));
    Array2::from_parts(x.into_iter().flatten().collect(), Ix2(m, n), false)
}
pub fn arr3_impl<A>(x: Vec<Vec<Vec<A>>>) -> Array3<A> {
    let m = x.len();
    let n = x.first().map_or(0, |r| r.len());
    let k = x.first().and_then(|r| r.first()).map_or(0, |r| r.len());
    Array3::from_parts(x.into_iter().flatten().flatten().collect(), Ix3(m, n, k), false)
}
/// Concatenation along an existing axis.
pub fn stack_impl<A: Clone, D: Dimension + RemoveAxis>(
    axis: Axis,
    arrays: &[ArrayView<'_, A, D>],
) -> Result<Array<A, D>, ShapeError> {
    let first = arrays.first().ok_or_else(ShapeError::shape)?;
    let mut dim = first.raw_dim();
    dim[axis.0] = arrays.iter().map(|a| a.len_of(axis)).sum();
    let mut v: Vec<Option<A>> = vec![None; dim.size()];
    let strides = dim.c_strides();
    let mut base = 0;
    for a in arrays {
        for ax in 0..dim.ndim() {
            if ax != axis.0 && a.shape()[ax] != dim.slice()[ax] {
                return Err(ShapeError::shape());
            }
        }
        for (idx, x) in a.index_vec_iter() {
            let mut i = idx;
            i[axis.0] += base;
            v[offset(i.slice(), strides.slice()) as usize] = Some(x.clone());
        }
        base += a.len_of(axis);
    }
    Ok(Array::from_parts(v.into_iter().map(|x| x.unwrap()).collect(), dim, false))
}
