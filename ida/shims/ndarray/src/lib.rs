//! A small stand-in for the `ndarray` crate (0.12 .. 0.15 API), enough to compile the `ida` integrator, which
//! needs `ndarray` 0.12 and is not buildable offline. Written from the public API, for use by the monitors only.
#![allow(clippy::all)]

mod arrayformat;
mod construct;
mod data;
mod dimension;
mod impl_ops;
pub mod iterators;
mod methods;
mod slicing;
mod zip;
pub mod linalg;

pub use data::*;
pub use dimension::*;
pub use iterators as iter;
pub use iterators::{AxisIter, AxisIterMut, IndexedIter, IndexedIterMut, Iter, IterMut, Lanes, LanesMut};
pub use slicing::*;
pub use zip::{FoldWhile, IntoNdProducer, NdProducer, Zip};
pub use construct::{arr0, arr1, arr2, aview1, aview_mut1, stack_impl as stack, stack_impl as concatenate};
pub use impl_ops::ScalarOperand;

use std::ptr::NonNull;

pub struct ArrayBase<S: RawData, D> {
    pub(crate) data: S,
    pub(crate) ptr: NonNull<S::Elem>,
    pub(crate) dim: D,
    /// isize values stored as usize
    pub(crate) strides: D,
}
unsafe impl<S: Send + RawData, D: Send> Send for ArrayBase<S, D> {}
unsafe impl<S: Sync + RawData, D: Sync> Sync for ArrayBase<S, D> {}

pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
pub type ArcArray<A, D> = Array<A, D>;
pub type ArcArray1<A> = Array<A, Ix1>;
pub type ArcArray2<A> = Array<A, Ix2>;
pub type ArrayView<'a, A, D> = ArrayBase<ViewRepr<&'a A>, D>;
pub type ArrayViewMut<'a, A, D> = ArrayBase<ViewRepr<&'a mut A>, D>;

macro_rules! aliases {
    ($($a:ident $v:ident $m:ident $d:ty;)*) => { $(
        pub type $a<A> = Array<A, $d>;
        pub type $v<'a, A> = ArrayView<'a, A, $d>;
        pub type $m<'a, A> = ArrayViewMut<'a, A, $d>;
    )* };
}
aliases! {
    Array0 ArrayView0 ArrayViewMut0 Ix0;
    Array1 ArrayView1 ArrayViewMut1 Ix1;
    Array2 ArrayView2 ArrayViewMut2 Ix2;
    Array3 ArrayView3 ArrayViewMut3 Ix3;
    Array4 ArrayView4 ArrayViewMut4 Ix4;
    ArrayD ArrayViewD ArrayViewMutD IxDyn;
}

pub trait LinalgScalar:
    'static
    + Copy
    + num_traits::Zero
    + num_traits::One
    + std::ops::Add<Output = Self>
    + std::ops::Sub<Output = Self>
    + std::ops::Mul<Output = Self>
    + std::ops::Div<Output = Self>
{
}
impl<T> LinalgScalar for T where
    T: 'static
        + Copy
        + num_traits::Zero
        + num_traits::One
        + std::ops::Add<Output = T>
        + std::ops::Sub<Output = T>
        + std::ops::Mul<Output = T>
        + std::ops::Div<Output = T>
{
}
pub trait NdFloat:
    num_traits::Float
    + std::ops::AddAssign
    + std::ops::SubAssign
    + std::ops::MulAssign
    + std::ops::DivAssign
    + std::ops::RemAssign
    + std::fmt::Display
    + std::fmt::Debug
    + std::fmt::LowerExp
    + std::fmt::UpperExp
    + ScalarOperand
    + LinalgScalar
    + Send
    + Sync
{
}
impl NdFloat for f32 {}
impl NdFloat for f64 {}

pub mod prelude {
    pub use crate::{arr0, arr1, arr2, aview1, aview_mut1};
    pub use crate::{
        Array, Array0, Array1, Array2, Array3, Array4, ArrayBase, ArrayD, ArrayView, ArrayView0, ArrayView1,
        ArrayView2, ArrayView3, ArrayView4, ArrayViewD, ArrayViewMut, ArrayViewMut0, ArrayViewMut1, ArrayViewMut2,
        ArrayViewMut3, ArrayViewMut4, ArrayViewMutD, ArcArray,
    };
    pub use crate::{Axis, Dim, Dimension, Ix0, Ix1, Ix2, Ix3, Ix4, Ix5, Ix6, IxDyn, NdFloat, ShapeBuilder};
    pub use crate::{array, azip, s};
}

#[macro_export]
macro_rules! array {
    ($([$([$($x:expr),* $(,)*]),+ $(,)*]),+ $(,)*) => {{ $crate::arr3_impl(vec![$(vec![$(vec![$($x,)*],)*],)*]) }};
    ($([$($x:expr),* $(,)*]),+ $(,)*) => {{ $crate::arr2_impl(vec![$(vec![$($x,)*],)*]) }};
    ($($x:expr),* $(,)*) => {{ $crate::Array1::from(vec![$($x,)*]) }};
}
#[doc(hidden)]
pub use construct::{arr2_impl, arr3_impl};

/// Joins arrays along an existing axis.
#[macro_export]
macro_rules! stack {
    ($axis:expr, $($a:expr),+ $(,)*) => { $crate::stack($axis, &[$($crate::ArrayBase::view(&$a)),+]).unwrap() };
}

#[macro_export]
macro_rules! azip {
    (@b [$($z:tt)*] [$($p:pat),*] () $body:expr) => { $($z)*.for_each(|$($p),*| { $body }) };
    (@b [$($z:tt)*] [$($p:pat),*] ($q:pat in $e:expr) $body:expr) => { $crate::azip!(@b [$($z)*.and($e)] [$($p,)* $q] () $body) };
    (@b [$($z:tt)*] [$($p:pat),*] ($q:pat in $e:expr, $($t:tt)*) $body:expr) => { $crate::azip!(@b [$($z)*.and($e)] [$($p,)* $q] ($($t)*) $body) };
    // the form of version 0.12: azip!(mut a (e), b, ref c in { .. })
    (@o [$($z:tt)*] [$($p:pat),*] in $body:expr) => { $($z)*.for_each(|$($p),*| { $body }) };
    (@o [$($z:tt)*] [$($p:pat),*] , $($t:tt)*) => { $crate::azip!(@o [$($z)*] [$($p),*] $($t)*) };
    (@o [] [] mut $x:ident ($e:expr) $($t:tt)*) => { $crate::azip!(@o [$crate::Zip::from($e)] [$x] $($t)*) };
    (@o [] [] ref $x:ident ($e:expr) $($t:tt)*) => { $crate::azip!(@o [$crate::Zip::from($e)] [$x] $($t)*) };
    (@o [] [] $x:ident ($e:expr) $($t:tt)*) => { $crate::azip!(@o [$crate::Zip::from($e)] [&$x] $($t)*) };
    (@o [] [] mut $x:ident $($t:tt)*) => { $crate::azip!(@o [$crate::Zip::from(&mut $x)] [$x] $($t)*) };
    (@o [] [] ref $x:ident $($t:tt)*) => { $crate::azip!(@o [$crate::Zip::from(&$x)] [$x] $($t)*) };
    (@o [] [] $x:ident $($t:tt)*) => { $crate::azip!(@o [$crate::Zip::from(&$x)] [&$x] $($t)*) };
    (@o [$($z:tt)+] [$($p:pat),*] mut $x:ident ($e:expr) $($t:tt)*) => { $crate::azip!(@o [$($z)+.and($e)] [$($p,)* $x] $($t)*) };
    (@o [$($z:tt)+] [$($p:pat),*] ref $x:ident ($e:expr) $($t:tt)*) => { $crate::azip!(@o [$($z)+.and($e)] [$($p,)* $x] $($t)*) };
    (@o [$($z:tt)+] [$($p:pat),*] $x:ident ($e:expr) $($t:tt)*) => { $crate::azip!(@o [$($z)+.and($e)] [$($p,)* &$x] $($t)*) };
    (@o [$($z:tt)+] [$($p:pat),*] mut $x:ident $($t:tt)*) => { $crate::azip!(@o [$($z)+.and(&mut $x)] [$($p,)* $x] $($t)*) };
    (@o [$($z:tt)+] [$($p:pat),*] ref $x:ident $($t:tt)*) => { $crate::azip!(@o [$($z)+.and(&$x)] [$($p,)* $x] $($t)*) };
    (@o [$($z:tt)+] [$($p:pat),*] $x:ident $($t:tt)*) => { $crate::azip!(@o [$($z)+.and(&$x)] [$($p,)* &$x] $($t)*) };
    (mut $($t:tt)*) => { $crate::azip!(@o [] [] mut $($t)*) };
    (ref $($t:tt)*) => { $crate::azip!(@o [] [] ref $($t)*) };
    ($x:ident $($t:tt)*) => { $crate::azip!(@o [] [] $x $($t)*) };
    ((index $i:pat, $q:pat in $e:expr) $body:expr) => { $crate::Zip::indexed($e).for_each(|$i, $q| { $body }) };
    ((index $i:pat, $q:pat in $e:expr, $($t:tt)*) $body:expr) => { $crate::azip!(@b [$crate::Zip::indexed($e)] [$i, $q] ($($t)*) $body) };
    (($q:pat in $e:expr) $body:expr) => { $crate::Zip::from($e).for_each(|$q| { $body }) };
    (($q:pat in $e:expr, $($t:tt)*) $body:expr) => { $crate::azip!(@b [$crate::Zip::from($e)] [$q] ($($t)*) $body) };
}
