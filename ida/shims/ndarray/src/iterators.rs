//! Iterators over elements, lanes and axes.
use crate::*;
use std::marker::PhantomData;
use std::ptr::NonNull;

struct Walk<A, D> {
    ptr: NonNull<A>,
    dim: D,
    strides: D,
    idx: Option<D>,
    left: usize,
}
impl<A, D: Dimension> Walk<A, D> {
    fn new(ptr: NonNull<A>, dim: D, strides: D) -> Self {
        let left = dim.size();
        let idx = if left > 0 { Some(D::zeros(dim.ndim())) } else { None };
        Walk { ptr, dim, strides, idx, left }
    }
    fn next(&mut self) -> Option<(D, *mut A)> {
        let idx = self.idx.take()?;
        let p = unsafe { self.ptr.as_ptr().offset(offset(idx.slice(), self.strides.slice())) };
        let mut n = idx.clone();
        self.left -= 1;
        if self.left > 0 && advance(self.dim.slice(), n.slice_mut()) {
            self.idx = Some(n);
        }
        Some((idx, p))
    }
    /// The last element not yet produced (row-major order), for double-ended iteration.
    fn next_back(&mut self) -> Option<*mut A> {
        let idx = self.idx.as_ref()?;
        let lin = {
            let mut l = 0;
            for i in 0..self.dim.ndim() {
                l = l * self.dim.slice()[i] + idx.slice()[i];
            }
            l
        };
        let mut last = lin + self.left - 1;
        let mut o = 0isize;
        for i in (0..self.dim.ndim()).rev() {
            let d = self.dim.slice()[i];
            o += ((last % d) as isize) * (self.strides.slice()[i] as isize);
            last /= d;
        }
        self.left -= 1;
        if self.left == 0 {
            self.idx = None;
        }
        Some(unsafe { self.ptr.as_ptr().offset(o) })
    }
}
impl<A, D: Clone> Clone for Walk<A, D> {
    fn clone(&self) -> Self {
        Walk { ptr: self.ptr, dim: self.dim.clone(), strides: self.strides.clone(), idx: self.idx.clone(), left: self.left }
    }
}

macro_rules! elem_iter {
    ($name:ident, $iname:ident, $ref:ty, $deref:expr) => {
        pub struct $name<'a, A, D> {
            w: Walk<A, D>,
            p: PhantomData<$ref>,
        }
        impl<'a, A, D: Dimension> $name<'a, A, D> {
            pub(crate) unsafe fn make(ptr: NonNull<A>, dim: D, strides: D) -> Self {
                $name { w: Walk::new(ptr, dim, strides), p: PhantomData }
            }
        }
        impl<'a, A, D: Dimension> Iterator for $name<'a, A, D> {
            type Item = $ref;
            fn next(&mut self) -> Option<$ref> {
                self.w.next().map(|(_, p)| unsafe { $deref(p) })
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.w.left, Some(self.w.left))
            }
        }
        impl<'a, A, D: Dimension> DoubleEndedIterator for $name<'a, A, D> {
            fn next_back(&mut self) -> Option<$ref> {
                self.w.next_back().map(|p| unsafe { $deref(p) })
            }
        }
        impl<'a, A, D: Dimension> ExactSizeIterator for $name<'a, A, D> {}
        pub struct $iname<'a, A, D> {
            w: Walk<A, D>,
            p: PhantomData<$ref>,
        }
        impl<'a, A, D: Dimension> $iname<'a, A, D> {
            pub(crate) unsafe fn make(ptr: NonNull<A>, dim: D, strides: D) -> Self {
                $iname { w: Walk::new(ptr, dim, strides), p: PhantomData }
            }
        }
        impl<'a, A, D: Dimension> Iterator for $iname<'a, A, D> {
            type Item = (D::Pattern, $ref);
            fn next(&mut self) -> Option<Self::Item> {
                self.w.next().map(|(i, p)| (i.into_pattern(), unsafe { $deref(p) }))
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.w.left, Some(self.w.left))
            }
        }
        impl<'a, A, D: Dimension> ExactSizeIterator for $iname<'a, A, D> {}
    };
}
elem_iter!(Iter, IndexedIter, &'a A, |p: *mut A| &*p);
elem_iter!(IterMut, IndexedIterMut, &'a mut A, |p: *mut A| &mut *p);
impl<'a, A, D: Clone> Clone for Iter<'a, A, D> {
    fn clone(&self) -> Self {
        Iter { w: self.w.clone(), p: PhantomData }
    }
}

/// Subviews along one axis.
macro_rules! axis_iter {
    ($name:ident, $ref:ty, $view:ident) => {
        pub struct $name<'a, A, D> {
            ptr: NonNull<A>,
            stride: isize,
            at: usize,
            end: usize,
            dim: D,
            strides: D,
            p: PhantomData<$ref>,
        }
        impl<'a, A, D: Dimension> $name<'a, A, D> {
            pub(crate) unsafe fn make(ptr: NonNull<A>, stride: isize, len: usize, dim: D, strides: D) -> Self {
                $name { ptr, stride, at: 0, end: len, dim, strides, p: PhantomData }
            }
            fn at(&self, i: usize) -> $view<'a, A, D> {
                ArrayBase {
                    data: ViewRepr { life: PhantomData },
                    ptr: unsafe { NonNull::new_unchecked(self.ptr.as_ptr().offset(self.stride * i as isize)) },
                    dim: self.dim.clone(),
                    strides: self.strides.clone(),
                }
            }
        }
        impl<'a, A, D: Dimension> Iterator for $name<'a, A, D> {
            type Item = $view<'a, A, D>;
            fn next(&mut self) -> Option<Self::Item> {
                if self.at >= self.end {
                    return None;
                }
                self.at += 1;
                Some(self.at(self.at - 1))
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.end - self.at, Some(self.end - self.at))
            }
        }
        impl<'a, A, D: Dimension> DoubleEndedIterator for $name<'a, A, D> {
            fn next_back(&mut self) -> Option<Self::Item> {
                if self.at >= self.end {
                    return None;
                }
                self.end -= 1;
                Some(self.at(self.end))
            }
        }
        impl<'a, A, D: Dimension> ExactSizeIterator for $name<'a, A, D> {}
        impl<'a, A, D: Dimension> NdProducer for $name<'a, A, D> {
            type Item = $view<'a, A, D>;
            type Dim = Ix1;
            fn raw_dim(&self) -> Ix1 {
                Ix1(self.end - self.at)
            }
            unsafe fn get(&mut self, i: &[usize]) -> Self::Item {
                self.at(self.at + i[0])
            }
        }
        impl<'a, A, D: Dimension> IntoNdProducer for $name<'a, A, D> {
            type Item = $view<'a, A, D>;
            type Dim = Ix1;
            type Output = Self;
            fn into_producer(self) -> Self {
                self
            }
        }
    };
}
axis_iter!(AxisIter, &'a A, ArrayView);
axis_iter!(AxisIterMut, &'a mut A, ArrayViewMut);

/// All one-dimensional lanes along an axis; `D` is the dimension without that axis.
macro_rules! lanes {
    ($name:ident, $it:ident, $ref:ty, $view:ident) => {
        pub struct $name<'a, A, D> {
            pub(crate) ptr: NonNull<A>,
            pub(crate) dim: D,
            pub(crate) strides: D,
            pub(crate) len: usize,
            pub(crate) stride: usize,
            pub(crate) p: PhantomData<$ref>,
        }
        pub struct $it<'a, A, D> {
            w: Walk<A, D>,
            len: usize,
            stride: usize,
            p: PhantomData<$ref>,
        }
        impl<'a, A, D: Dimension> Iterator for $it<'a, A, D> {
            type Item = $view<'a, A, Ix1>;
            fn next(&mut self) -> Option<Self::Item> {
                let (len, stride) = (self.len, self.stride);
                self.w.next().map(|(_, p)| ArrayBase {
                    data: ViewRepr { life: PhantomData },
                    ptr: unsafe { NonNull::new_unchecked(p) },
                    dim: Ix1(len),
                    strides: Ix1(stride),
                })
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.w.left, Some(self.w.left))
            }
        }
        impl<'a, A, D: Dimension> DoubleEndedIterator for $it<'a, A, D> {
            fn next_back(&mut self) -> Option<Self::Item> {
                let (len, stride) = (self.len, self.stride);
                self.w.next_back().map(|p| ArrayBase {
                    data: ViewRepr { life: PhantomData },
                    ptr: unsafe { NonNull::new_unchecked(p) },
                    dim: Ix1(len),
                    strides: Ix1(stride),
                })
            }
        }
        impl<'a, A, D: Dimension> ExactSizeIterator for $it<'a, A, D> {}
        impl<'a, A, D: Dimension> IntoIterator for $name<'a, A, D> {
            type Item = $view<'a, A, Ix1>;
            type IntoIter = $it<'a, A, D>;
            fn into_iter(self) -> Self::IntoIter {
                $it { w: Walk::new(self.ptr, self.dim, self.strides), len: self.len, stride: self.stride, p: PhantomData }
            }
        }
        impl<'a, A, D: Dimension> NdProducer for $name<'a, A, D> {
            type Item = $view<'a, A, Ix1>;
            type Dim = D;
            fn raw_dim(&self) -> D {
                self.dim.clone()
            }
            unsafe fn get(&mut self, i: &[usize]) -> Self::Item {
                ArrayBase {
                    data: ViewRepr { life: PhantomData },
                    ptr: NonNull::new_unchecked(self.ptr.as_ptr().offset(offset(i, self.strides.slice()))),
                    dim: Ix1(self.len),
                    strides: Ix1(self.stride),
                }
            }
        }
        impl<'a, A, D: Dimension> IntoNdProducer for $name<'a, A, D> {
            type Item = $view<'a, A, Ix1>;
            type Dim = D;
            type Output = Self;
            fn into_producer(self) -> Self {
                self
            }
        }
    };
}
lanes!(Lanes, LanesIter, &'a A, ArrayView);
lanes!(LanesMut, LanesIterMut, &'a mut A, ArrayViewMut);

impl<'a, S: Data, D: Dimension> IntoIterator for &'a ArrayBase<S, D> {
    type Item = &'a S::Elem;
    type IntoIter = Iter<'a, S::Elem, D>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, S: DataMut, D: Dimension> IntoIterator for &'a mut ArrayBase<S, D> {
    type Item = &'a mut S::Elem;
    type IntoIter = IterMut<'a, S::Elem, D>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
impl<'a, A, D: Dimension> IntoIterator for ArrayView<'a, A, D> {
    type Item = &'a A;
    type IntoIter = Iter<'a, A, D>;
    fn into_iter(self) -> Self::IntoIter {
        unsafe { Iter::make(self.ptr, self.dim, self.strides) }
    }
}
impl<'a, A, D: Dimension> IntoIterator for ArrayViewMut<'a, A, D> {
    type Item = &'a mut A;
    type IntoIter = IterMut<'a, A, D>;
    fn into_iter(self) -> Self::IntoIter {
        unsafe { IterMut::make(self.ptr, self.dim, self.strides) }
    }
}
impl<A: Clone, D: Dimension> IntoIterator for Array<A, D> {
    type Item = A;
    type IntoIter = std::vec::IntoIter<A>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter().cloned().collect::<Vec<A>>().into_iter()
    }
}
