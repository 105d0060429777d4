//! `Slice`, `SliceInfo` and the `s!` macro.
use crate::dimension::*;
use std::marker::PhantomData;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Slice {
    pub start: isize,
    pub end: Option<isize>,
    pub step: isize,
}
impl Slice {
    pub fn new(start: isize, end: Option<isize>, step: isize) -> Slice {
        Slice { start, end, step }
    }
    pub fn step_by(self, step: isize) -> Self {
        Slice { step: self.step * step, ..self }
    }
    /// (start, count, step) on an axis of length `len`.
    pub(crate) fn resolve(self, len: usize) -> (usize, usize, isize) {
        let abs = |i: isize| -> isize {
            if i < 0 {
                i + len as isize
            } else {
                i
            }
        };
        let start = abs(self.start);
        let mut end = abs(self.end.unwrap_or(len as isize));
        if end < start {
            end = start;
        }
        assert!(
            start >= 0 && start <= len as isize && end <= len as isize,
            "Slice begin/end {}..{} is past end of axis of length {}",
            start,
            end,
            len
        );
        assert!(self.step != 0, "Slice stride must not be none");
        let m = (end - start) as usize;
        let s = self.step.unsigned_abs();
        let count = m / s + (m % s > 0) as usize;
        let first = if self.step > 0 || m == 0 { start as usize } else { end as usize - 1 };
        (first, count, self.step)
    }
}
macro_rules! from_ranges {
    ($($t:ty),*) => { $(
        impl From<Range<$t>> for Slice { fn from(r: Range<$t>) -> Slice { Slice::new(r.start as isize, Some(r.end as isize), 1) } }
        impl From<RangeFrom<$t>> for Slice { fn from(r: RangeFrom<$t>) -> Slice { Slice::new(r.start as isize, None, 1) } }
        impl From<RangeTo<$t>> for Slice { fn from(r: RangeTo<$t>) -> Slice { Slice::new(0, Some(r.end as isize), 1) } }
        impl From<RangeInclusive<$t>> for Slice {
            fn from(r: RangeInclusive<$t>) -> Slice {
                let e = *r.end() as isize + 1;
                Slice::new(*r.start() as isize, if e == 0 { None } else { Some(e) }, 1)
            }
        }
        impl From<RangeToInclusive<$t>> for Slice {
            fn from(r: RangeToInclusive<$t>) -> Slice {
                let e = r.end as isize + 1;
                Slice::new(0, if e == 0 { None } else { Some(e) }, 1)
            }
        }
        impl SliceArg for Range<$t> { type Out<D: Dimension> = D::Larger; fn elem(self) -> SliceInfoElem { SliceInfoElem::Slice(self.into()) } }
        impl SliceArg for RangeFrom<$t> { type Out<D: Dimension> = D::Larger; fn elem(self) -> SliceInfoElem { SliceInfoElem::Slice(self.into()) } }
        impl SliceArg for RangeTo<$t> { type Out<D: Dimension> = D::Larger; fn elem(self) -> SliceInfoElem { SliceInfoElem::Slice(self.into()) } }
        impl SliceArg for RangeInclusive<$t> { type Out<D: Dimension> = D::Larger; fn elem(self) -> SliceInfoElem { SliceInfoElem::Slice(self.into()) } }
        impl SliceArg for RangeToInclusive<$t> { type Out<D: Dimension> = D::Larger; fn elem(self) -> SliceInfoElem { SliceInfoElem::Slice(self.into()) } }
        impl SliceArg for $t { type Out<D: Dimension> = D; fn elem(self) -> SliceInfoElem { SliceInfoElem::Index(self as isize) } }
    )* };
}
from_ranges!(usize, isize, i32);
impl From<RangeFull> for Slice {
    fn from(_: RangeFull) -> Slice {
        Slice::new(0, None, 1)
    }
}
impl SliceArg for RangeFull {
    type Out<D: Dimension> = D::Larger;
    fn elem(self) -> SliceInfoElem {
        SliceInfoElem::Slice(self.into())
    }
}
impl SliceArg for Slice {
    type Out<D: Dimension> = D::Larger;
    fn elem(self) -> SliceInfoElem {
        SliceInfoElem::Slice(self)
    }
}

#[derive(Clone, Copy, Debug)]
pub enum SliceInfoElem {
    Slice(Slice),
    Index(isize),
}
pub trait SliceArg {
    type Out<D: Dimension>: Dimension;
    fn elem(self) -> SliceInfoElem;
}

#[derive(Clone, Debug)]
pub struct SliceInfo<Din, Dout> {
    pub(crate) elems: Vec<SliceInfoElem>,
    p: PhantomData<(Din, Dout)>,
}
impl SliceInfo<Ix0, Ix0> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        SliceInfo { elems: vec![], p: PhantomData }
    }
}
impl<Din: Dimension, Dout: Dimension> SliceInfo<Din, Dout> {
    #[doc(hidden)]
    pub fn push<A: SliceArg>(mut self, a: A) -> SliceInfo<Din::Larger, A::Out<Dout>> {
        self.elems.push(a.elem());
        SliceInfo { elems: self.elems, p: PhantomData }
    }
}
/// Argument of `slice`: a `SliceInfo` or a reference to one.
pub trait AsSliceInfo<D: Dimension> {
    type Out: Dimension;
    fn elems(&self) -> &[SliceInfoElem];
}
impl<D: Dimension, O: Dimension> AsSliceInfo<D> for SliceInfo<D, O> {
    type Out = O;
    fn elems(&self) -> &[SliceInfoElem] {
        &self.elems
    }
}
impl<'a, D: Dimension, O: Dimension> AsSliceInfo<D> for &'a SliceInfo<D, O> {
    type Out = O;
    fn elems(&self) -> &[SliceInfoElem] {
        &self.elems
    }
}

#[macro_export]
macro_rules! s {
    (@p [$b:expr] $r:expr; $s:expr) => { $b.push($crate::Slice::from($r).step_by($s as isize)) };
    (@p [$b:expr] $r:expr; $s:expr, $($t:tt)*) => { $crate::s!(@p [$b.push($crate::Slice::from($r).step_by($s as isize))] $($t)*) };
    (@p [$b:expr] $r:expr) => { $b.push($r) };
    (@p [$b:expr] $r:expr, $($t:tt)*) => { $crate::s!(@p [$b.push($r)] $($t)*) };
    (@p [$b:expr]) => { $b };
    ($($t:tt)*) => { $crate::s!(@p [$crate::SliceInfo::new()] $($t)*) };
}
