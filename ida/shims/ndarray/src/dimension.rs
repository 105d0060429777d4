//! Dimensions, indices and shapes.
use std::fmt::Debug;
use std::ops::{Index, IndexMut};

pub type Ix = usize;
pub type Ixs = isize;

#[derive(Copy, Clone, PartialEq, Eq, Hash)]
pub struct Dim<I> {
    pub(crate) index: I,
}

#[allow(non_snake_case)]
pub fn Dim<T: IntoDimension>(index: T) -> T::Dim {
    index.into_dimension()
}

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct IxDynImpl(pub(crate) Vec<Ix>);

pub type Ix0 = Dim<[Ix; 0]>;
pub type Ix1 = Dim<[Ix; 1]>;
pub type Ix2 = Dim<[Ix; 2]>;
pub type Ix3 = Dim<[Ix; 3]>;
pub type Ix4 = Dim<[Ix; 4]>;
pub type Ix5 = Dim<[Ix; 5]>;
pub type Ix6 = Dim<[Ix; 6]>;
pub type IxDyn = Dim<IxDynImpl>;

#[allow(non_snake_case)]
pub fn Ix0() -> Ix0 {
    Dim { index: [] }
}
#[allow(non_snake_case)]
pub fn Ix1(a: Ix) -> Ix1 {
    Dim { index: [a] }
}
#[allow(non_snake_case)]
pub fn Ix2(a: Ix, b: Ix) -> Ix2 {
    Dim { index: [a, b] }
}
#[allow(non_snake_case)]
pub fn Ix3(a: Ix, b: Ix, c: Ix) -> Ix3 {
    Dim { index: [a, b, c] }
}
#[allow(non_snake_case)]
pub fn IxDyn(a: &[Ix]) -> IxDyn {
    Dim { index: IxDynImpl(a.to_vec()) }
}

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Axis(pub usize);
impl Axis {
    pub fn index(self) -> usize {
        self.0
    }
}

pub trait IntoDimension {
    type Dim: Dimension;
    fn into_dimension(self) -> Self::Dim;
}

pub trait Dimension:
    Clone + Eq + Debug + Send + Sync + Default + IntoDimension<Dim = Self> + Index<usize, Output = usize> + IndexMut<usize> + 'static
{
    const NDIM: Option<usize>;
    type Pattern: IntoDimension<Dim = Self> + Clone + Debug + PartialEq + Eq + Default;
    type Smaller: Dimension;
    type Larger: Dimension + RemoveAxis;

    fn ndim(&self) -> usize;
    fn into_pattern(self) -> Self::Pattern;
    fn slice(&self) -> &[Ix];
    fn slice_mut(&mut self) -> &mut [Ix];
    fn zeros(ndim: usize) -> Self;
    fn size(&self) -> usize {
        self.slice().iter().product()
    }
    fn as_array_view(&self) -> crate::ArrayView1<'_, Ix> {
        crate::ArrayView1::from(self.slice())
    }
    #[doc(hidden)]
    fn from_slice(s: &[Ix]) -> Option<Self> {
        let mut d = Self::zeros(s.len());
        if d.ndim() != s.len() {
            return None;
        }
        d.slice_mut().copy_from_slice(s);
        Some(d)
    }
    #[doc(hidden)]
    fn c_strides(&self) -> Self {
        let mut st = Self::zeros(self.ndim());
        let mut acc = 1usize;
        for i in (0..self.ndim()).rev() {
            st[i] = acc;
            acc *= self.slice()[i];
        }
        st
    }
    #[doc(hidden)]
    fn f_strides(&self) -> Self {
        let mut st = Self::zeros(self.ndim());
        let mut acc = 1usize;
        for i in 0..self.ndim() {
            st[i] = acc;
            acc *= self.slice()[i];
        }
        st
    }
    #[doc(hidden)]
    fn without(&self, axis: Axis) -> Self::Smaller {
        let v: Vec<Ix> =
            self.slice().iter().enumerate().filter(|(i, _)| *i != axis.0).map(|(_, v)| *v).collect();
        Self::Smaller::from_slice(&v).expect("axis removal")
    }
    #[doc(hidden)]
    fn with(&self, axis: Axis, val: Ix) -> Self::Larger {
        let mut v: Vec<Ix> = self.slice().to_vec();
        v.insert(axis.0, val);
        Self::Larger::from_slice(&v).expect("axis insertion")
    }
}

pub trait RemoveAxis: Dimension {
    fn remove_axis(&self, axis: Axis) -> Self::Smaller {
        self.without(axis)
    }
}

impl<D: Dimension> IntoDimension for D {
    type Dim = D;
    fn into_dimension(self) -> D {
        self
    }
}

impl IntoDimension for Ix {
    type Dim = Ix1;
    fn into_dimension(self) -> Ix1 {
        Dim { index: [self] }
    }
}
impl IntoDimension for () {
    type Dim = Ix0;
    fn into_dimension(self) -> Ix0 {
        Dim { index: [] }
    }
}
impl IntoDimension for Vec<Ix> {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        Dim { index: IxDynImpl(self) }
    }
}
impl<'a> IntoDimension for &'a [Ix] {
    type Dim = IxDyn;
    fn into_dimension(self) -> IxDyn {
        Dim { index: IxDynImpl(self.to_vec()) }
    }
}

macro_rules! dims {
    ($n:tt, $smaller:ty, $larger:ty, $pat:ty, $p:ident => $to:expr) => {
        impl Dimension for Dim<[Ix; $n]> {
            const NDIM: Option<usize> = Some($n);
            type Pattern = $pat;
            type Smaller = $smaller;
            type Larger = $larger;
            fn ndim(&self) -> usize {
                $n
            }
            fn into_pattern(self) -> $pat {
                let $p = self.index;
                $to
            }
            fn slice(&self) -> &[Ix] {
                &self.index
            }
            fn slice_mut(&mut self) -> &mut [Ix] {
                &mut self.index
            }
            fn zeros(_n: usize) -> Self {
                Dim { index: [0; $n] }
            }
        }
        impl Default for Dim<[Ix; $n]> {
            fn default() -> Self {
                Dim { index: [0; $n] }
            }
        }
        impl IntoDimension for [Ix; $n] {
            type Dim = Dim<[Ix; $n]>;
            fn into_dimension(self) -> Self::Dim {
                Dim { index: self }
            }
        }
    };
}
dims!(0, Ix0, Ix1, (), _p => ());
dims!(1, Ix0, Ix2, Ix, p => p[0]);
dims!(2, Ix1, Ix3, (Ix, Ix), p => (p[0], p[1]));
dims!(3, Ix2, Ix4, (Ix, Ix, Ix), p => (p[0], p[1], p[2]));
dims!(4, Ix3, Ix5, (Ix, Ix, Ix, Ix), p => (p[0], p[1], p[2], p[3]));
dims!(5, Ix4, Ix6, (Ix, Ix, Ix, Ix, Ix), p => (p[0], p[1], p[2], p[3], p[4]));
dims!(6, Ix5, IxDyn, (Ix, Ix, Ix, Ix, Ix, Ix), p => (p[0], p[1], p[2], p[3], p[4], p[5]));

impl RemoveAxis for Ix1 {}
impl RemoveAxis for Ix2 {}
impl RemoveAxis for Ix3 {}
impl RemoveAxis for Ix4 {}
impl RemoveAxis for Ix5 {}
impl RemoveAxis for Ix6 {}
impl RemoveAxis for IxDyn {}

macro_rules! tuples {
    ($($n:tt: $t:ty, $p:pat => $e:expr;)*) => { $(
        impl IntoDimension for $t {
            type Dim = Dim<[Ix; $n]>;
            fn into_dimension(self) -> Self::Dim { let $p = self; Dim { index: $e } }
        }
    )* };
}
tuples! {
    1: (Ix,), (a,) => [a];
    2: (Ix, Ix), (a, b) => [a, b];
    3: (Ix, Ix, Ix), (a, b, c) => [a, b, c];
    4: (Ix, Ix, Ix, Ix), (a, b, c, d) => [a, b, c, d];
    5: (Ix, Ix, Ix, Ix, Ix), (a, b, c, d, e) => [a, b, c, d, e];
    6: (Ix, Ix, Ix, Ix, Ix, Ix), (a, b, c, d, e, f) => [a, b, c, d, e, f];
}

impl Dimension for IxDyn {
    const NDIM: Option<usize> = None;
    type Pattern = Self;
    type Smaller = Self;
    type Larger = Self;
    fn ndim(&self) -> usize {
        self.index.0.len()
    }
    fn into_pattern(self) -> Self {
        self
    }
    fn slice(&self) -> &[Ix] {
        &self.index.0
    }
    fn slice_mut(&mut self) -> &mut [Ix] {
        &mut self.index.0
    }
    fn zeros(n: usize) -> Self {
        Dim { index: IxDynImpl(vec![0; n]) }
    }
}
impl Default for IxDyn {
    fn default() -> Self {
        Dim { index: IxDynImpl(vec![0]) }
    }
}

impl<I> Debug for Dim<I>
where
    Dim<I>: Dimension,
{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.slice())
    }
}
impl<I> Index<usize> for Dim<I>
where
    Dim<I>: DimSlice,
{
    type Output = usize;
    fn index(&self, i: usize) -> &usize {
        &self.dim_slice()[i]
    }
}
impl<I> IndexMut<usize> for Dim<I>
where
    Dim<I>: DimSlice,
{
    fn index_mut(&mut self, i: usize) -> &mut usize {
        &mut self.dim_slice_mut()[i]
    }
}
/// Breaks the cycle between `Dimension: Index` and `Index for Dim`.
pub trait DimSlice {
    fn dim_slice(&self) -> &[usize];
    fn dim_slice_mut(&mut self) -> &mut [usize];
}
impl<const N: usize> DimSlice for Dim<[Ix; N]> {
    fn dim_slice(&self) -> &[usize] {
        &self.index
    }
    fn dim_slice_mut(&mut self) -> &mut [usize] {
        &mut self.index
    }
}
impl DimSlice for IxDyn {
    fn dim_slice(&self) -> &[usize] {
        &self.index.0
    }
    fn dim_slice_mut(&mut self) -> &mut [usize] {
        &mut self.index.0
    }
}

/// Row-major successor of `idx`; false at the end.
pub(crate) fn advance(dim: &[usize], idx: &mut [usize]) -> bool {
    for ax in (0..dim.len()).rev() {
        idx[ax] += 1;
        if idx[ax] < dim[ax] {
            return true;
        }
        idx[ax] = 0;
    }
    false
}
pub(crate) fn offset(idx: &[usize], strides: &[usize]) -> isize {
    idx.iter().zip(strides).map(|(&i, &s)| (i as isize) * (s as isize)).sum()
}

/// Things that can index an array of dimension `D`.
pub trait NdIndex<D>: Debug {
    fn index_checked(&self, dim: &D, strides: &D) -> Option<isize>;
}
fn check(idx: &[usize], dim: &[usize], strides: &[usize]) -> Option<isize> {
    if idx.len() != dim.len() || idx.iter().zip(dim).any(|(i, d)| i >= d) {
        None
    } else {
        Some(offset(idx, strides))
    }
}
impl<D: Dimension> NdIndex<D> for D {
    fn index_checked(&self, dim: &D, strides: &D) -> Option<isize> {
        check(self.slice(), dim.slice(), strides.slice())
    }
}
impl NdIndex<Ix1> for Ix {
    fn index_checked(&self, dim: &Ix1, strides: &Ix1) -> Option<isize> {
        check(&[*self], dim.slice(), strides.slice())
    }
}
impl NdIndex<IxDyn> for Ix {
    fn index_checked(&self, dim: &IxDyn, strides: &IxDyn) -> Option<isize> {
        check(&[*self], dim.slice(), strides.slice())
    }
}
impl NdIndex<Ix2> for (Ix, Ix) {
    fn index_checked(&self, dim: &Ix2, strides: &Ix2) -> Option<isize> {
        check(&[self.0, self.1], dim.slice(), strides.slice())
    }
}
impl NdIndex<Ix3> for (Ix, Ix, Ix) {
    fn index_checked(&self, dim: &Ix3, strides: &Ix3) -> Option<isize> {
        check(&[self.0, self.1, self.2], dim.slice(), strides.slice())
    }
}
impl NdIndex<Ix0> for () {
    fn index_checked(&self, dim: &Ix0, strides: &Ix0) -> Option<isize> {
        check(&[], dim.slice(), strides.slice())
    }
}
impl<const N: usize> NdIndex<Dim<[Ix; N]>> for [Ix; N] {
    fn index_checked(&self, dim: &Dim<[Ix; N]>, strides: &Dim<[Ix; N]>) -> Option<isize> {
        check(self, &dim.index, &strides.index)
    }
}
impl<'a> NdIndex<IxDyn> for &'a [Ix] {
    fn index_checked(&self, dim: &IxDyn, strides: &IxDyn) -> Option<isize> {
        check(self, dim.slice(), strides.slice())
    }
}

/// A dimension together with a memory order.
#[derive(Copy, Clone, Debug)]
pub struct Shape<D> {
    pub(crate) dim: D,
    pub(crate) fortran: bool,
}
pub trait ShapeBuilder {
    type Dim: Dimension;
    fn into_shape(self) -> Shape<Self::Dim>;
    fn f(self) -> Shape<Self::Dim>
    where
        Self: Sized,
    {
        let mut s = self.into_shape();
        s.fortran = true;
        s
    }
    fn set_f(self, is_f: bool) -> Shape<Self::Dim>
    where
        Self: Sized,
    {
        let mut s = self.into_shape();
        s.fortran = is_f;
        s
    }
}
impl<T: IntoDimension> ShapeBuilder for T {
    type Dim = T::Dim;
    fn into_shape(self) -> Shape<T::Dim> {
        Shape { dim: self.into_dimension(), fortran: false }
    }
}
impl<D: Dimension> ShapeBuilder for Shape<D> {
    type Dim = D;
    fn into_shape(self) -> Shape<D> {
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ErrorKind {
    IncompatibleShape,
    IncompatibleLayout,
    RangeLimited,
    OutOfBounds,
    Unsupported,
    Overflow,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ShapeError {
    pub(crate) kind: ErrorKind,
}
impl ShapeError {
    pub fn kind(&self) -> ErrorKind {
        self.kind
    }
    pub(crate) fn shape() -> Self {
        ShapeError { kind: ErrorKind::IncompatibleShape }
    }
}
impl std::fmt::Display for ShapeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "ShapeError/{:?}", self.kind)
    }
}
impl std::error::Error for ShapeError {}
