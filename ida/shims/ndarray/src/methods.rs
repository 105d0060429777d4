//! Methods of `ArrayBase`.
use crate::*;
use num_traits::{FromPrimitive, One, Zero};
use std::marker::PhantomData;
use std::ops::{Add, AddAssign, Div, Mul};

impl<S: RawData, D: Dimension> ArrayBase<S, D> {
    pub fn len(&self) -> usize {
        self.dim.size()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn len_of(&self, axis: Axis) -> usize {
        self.dim.slice()[axis.0]
    }
    pub fn ndim(&self) -> usize {
        self.dim.ndim()
    }
    pub fn shape(&self) -> &[usize] {
        self.dim.slice()
    }
    pub fn dim(&self) -> D::Pattern {
        self.dim.clone().into_pattern()
    }
    pub fn raw_dim(&self) -> D {
        self.dim.clone()
    }
    pub fn strides(&self) -> &[isize] {
        let s = self.strides.slice();
        unsafe { std::slice::from_raw_parts(s.as_ptr() as *const isize, s.len()) }
    }
    pub fn stride_of(&self, axis: Axis) -> isize {
        self.strides()[axis.0]
    }
    pub fn is_standard_layout(&self) -> bool {
        let c = self.dim.c_strides();
        self.len() == 0
            || (0..self.ndim()).all(|i| self.shape()[i] == 1 || c.slice()[i] == self.strides.slice()[i])
    }
    pub fn as_ptr(&self) -> *const S::Elem {
        self.ptr.as_ptr()
    }
    pub fn reversed_axes(mut self) -> Self {
        self.dim.slice_mut().reverse();
        self.strides.slice_mut().reverse();
        self
    }
    pub fn swap_axes(&mut self, a: usize, b: usize) {
        self.dim.slice_mut().swap(a, b);
        self.strides.slice_mut().swap(a, b);
    }
    pub fn invert_axis(&mut self, axis: Axis) {
        let n = self.len_of(axis);
        let st = self.strides.slice()[axis.0] as isize;
        if n > 0 {
            self.ptr = unsafe { NonNull::new_unchecked(self.ptr.as_ptr().offset(st * (n as isize - 1))) };
        }
        self.strides[axis.0] = (-st) as usize;
    }
    pub fn into_dimensionality<D2: Dimension>(self) -> Result<ArrayBase<S, D2>, ShapeError> {
        match (D2::from_slice(self.dim.slice()), D2::from_slice(self.strides.slice())) {
            (Some(dim), Some(strides)) => Ok(ArrayBase { data: self.data, ptr: self.ptr, dim, strides }),
            _ => Err(ShapeError::shape()),
        }
    }
    pub fn into_dyn(self) -> ArrayBase<S, IxDyn> {
        self.into_dimensionality().unwrap()
    }
    pub fn insert_axis(self, axis: Axis) -> ArrayBase<S, D::Larger> {
        let dim = self.dim.with(axis, 1);
        let strides = self.strides.with(axis, 0);
        ArrayBase { data: self.data, ptr: self.ptr, dim, strides }
    }
    pub fn index_axis_move(mut self, axis: Axis, index: usize) -> ArrayBase<S, D::Smaller>
    where
        D: RemoveAxis,
    {
        self.collapse_axis(axis, index);
        let dim = self.dim.without(axis);
        let strides = self.strides.without(axis);
        ArrayBase { data: self.data, ptr: self.ptr, dim, strides }
    }
    pub fn remove_axis(self, axis: Axis) -> ArrayBase<S, D::Smaller>
    where
        D: RemoveAxis,
    {
        self.index_axis_move(axis, 0)
    }
    pub fn collapse_axis(&mut self, axis: Axis, index: usize) {
        assert!(index < self.len_of(axis), "index_axis: index {} out of bounds for axis {} of {:?}", index, axis.0, self.dim);
        let st = self.strides.slice()[axis.0] as isize;
        self.ptr = unsafe { NonNull::new_unchecked(self.ptr.as_ptr().offset(st * index as isize)) };
        self.dim[axis.0] = 1;
    }
    pub fn slice_axis_inplace(&mut self, axis: Axis, s: Slice) {
        let (first, count, step) = s.resolve(self.len_of(axis));
        let st = self.strides.slice()[axis.0] as isize;
        if count > 0 {
            self.ptr = unsafe { NonNull::new_unchecked(self.ptr.as_ptr().offset(st * first as isize)) };
        }
        self.dim[axis.0] = count;
        self.strides[axis.0] = (st * step) as usize;
    }
    pub fn slice_move<I: AsSliceInfo<D>>(mut self, info: I) -> ArrayBase<S, I::Out> {
        let elems = info.elems();
        assert_eq!(elems.len(), self.ndim());
        let mut dim = vec![];
        let mut strides = vec![];
        for (i, e) in elems.iter().enumerate() {
            match *e {
                SliceInfoElem::Slice(s) => {
                    self.slice_axis_inplace(Axis(i), s);
                    dim.push(self.dim.slice()[i]);
                    strides.push(self.strides.slice()[i]);
                }
                SliceInfoElem::Index(ix) => {
                    let n = self.len_of(Axis(i)) as isize;
                    let ix = if ix < 0 { ix + n } else { ix };
                    assert!(ix >= 0 && ix < n, "slice index out of bounds");
                    self.collapse_axis(Axis(i), ix as usize);
                }
            }
        }
        ArrayBase {
            data: self.data,
            ptr: self.ptr,
            dim: <I::Out as Dimension>::from_slice(&dim).unwrap(),
            strides: <I::Out as Dimension>::from_slice(&strides).unwrap(),
        }
    }
}

impl<S: Data, D: Dimension> ArrayBase<S, D> {
    pub fn view(&self) -> ArrayView<'_, S::Elem, D> {
        ArrayBase {
            data: ViewRepr { life: PhantomData },
            ptr: self.ptr,
            dim: self.dim.clone(),
            strides: self.strides.clone(),
        }
    }
    pub fn view_mut(&mut self) -> ArrayViewMut<'_, S::Elem, D>
    where
        S: DataMut,
    {
        ArrayBase {
            data: ViewRepr { life: PhantomData },
            ptr: self.ptr,
            dim: self.dim.clone(),
            strides: self.strides.clone(),
        }
    }
    pub fn to_owned(&self) -> Array<S::Elem, D>
    where
        S::Elem: Clone,
    {
        Array::from_parts(self.iter().cloned().collect(), self.dim.clone(), false)
    }
    pub fn into_owned(self) -> Array<S::Elem, D>
    where
        S::Elem: Clone,
    {
        S::into_owned_elems(self)
    }
    pub fn iter(&self) -> Iter<'_, S::Elem, D> {
        unsafe { Iter::make(self.ptr, self.dim.clone(), self.strides.clone()) }
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, S::Elem, D>
    where
        S: DataMut,
    {
        unsafe { IterMut::make(self.ptr, self.dim.clone(), self.strides.clone()) }
    }
    pub fn indexed_iter(&self) -> IndexedIter<'_, S::Elem, D> {
        unsafe { IndexedIter::make(self.ptr, self.dim.clone(), self.strides.clone()) }
    }
    pub fn indexed_iter_mut(&mut self) -> IndexedIterMut<'_, S::Elem, D>
    where
        S: DataMut,
    {
        unsafe { IndexedIterMut::make(self.ptr, self.dim.clone(), self.strides.clone()) }
    }
    pub(crate) fn index_vec_iter(&self) -> impl Iterator<Item = (D, &S::Elem)> {
        let mut v = vec![];
        let mut idx = D::zeros(self.ndim());
        for x in self.iter() {
            v.push((idx.clone(), x));
            advance(self.dim.slice(), idx.slice_mut());
        }
        v.into_iter()
    }
    pub fn first(&self) -> Option<&S::Elem> {
        self.iter().next()
    }
    pub fn last(&self) -> Option<&S::Elem> {
        self.iter().next_back()
    }
    pub fn first_mut(&mut self) -> Option<&mut S::Elem>
    where
        S: DataMut,
    {
        self.iter_mut().next()
    }
    pub fn last_mut(&mut self) -> Option<&mut S::Elem>
    where
        S: DataMut,
    {
        self.iter_mut().next_back()
    }
    /// Whole pieces along an axis; the last one may be shorter.
    pub fn axis_chunks_iter(&self, axis: Axis, size: usize) -> std::vec::IntoIter<ArrayView<'_, S::Elem, D>> {
        assert!(size > 0);
        let n = self.len_of(axis);
        let mut v = vec![];
        let mut i = 0;
        while i < n {
            v.push(self.slice_axis(axis, Slice::new(i as isize, Some((i + size).min(n) as isize), 1)));
            i += size;
        }
        v.into_iter()
    }
    pub fn axis_chunks_iter_mut(&mut self, axis: Axis, size: usize) -> std::vec::IntoIter<ArrayViewMut<'_, S::Elem, D>>
    where
        S: DataMut,
    {
        assert!(size > 0);
        let mut v = vec![];
        let mut rest = self.view_mut();
        while rest.len_of(axis) > size {
            let (a, b) = rest.split_at(axis, size);
            v.push(a);
            rest = b;
        }
        if rest.len_of(axis) > 0 {
            v.push(rest);
        }
        v.into_iter()
    }
    pub fn get<I: NdIndex<D>>(&self, i: I) -> Option<&S::Elem> {
        i.index_checked(&self.dim, &self.strides).map(|o| unsafe { &*self.ptr.as_ptr().offset(o) })
    }
    pub fn get_mut<I: NdIndex<D>>(&mut self, i: I) -> Option<&mut S::Elem>
    where
        S: DataMut,
    {
        i.index_checked(&self.dim, &self.strides).map(|o| unsafe { &mut *self.ptr.as_ptr().offset(o) })
    }
    pub unsafe fn uget<I: NdIndex<D>>(&self, i: I) -> &S::Elem {
        self.get(i).expect("uget: index out of bounds")
    }
    pub unsafe fn uget_mut<I: NdIndex<D>>(&mut self, i: I) -> &mut S::Elem
    where
        S: DataMut,
    {
        self.get_mut(i).expect("uget_mut: index out of bounds")
    }
    pub fn swap<I: NdIndex<D>>(&mut self, a: I, b: I)
    where
        S: DataMut,
    {
        let pa: *mut S::Elem = self.get_mut(a).expect("index out of bounds");
        let pb: *mut S::Elem = self.get_mut(b).expect("index out of bounds");
        unsafe { std::ptr::swap(pa, pb) }
    }

    pub fn slice<I: AsSliceInfo<D>>(&self, info: I) -> ArrayView<'_, S::Elem, I::Out> {
        self.view().slice_move(info)
    }
    pub fn slice_inplace<I: AsSliceInfo<D, Out = D>>(&mut self, info: I) {
        self.slice_collapse(info)
    }
    /// Restricts the array; an index leaves an axis of length one.
    pub fn slice_collapse<I: AsSliceInfo<D>>(&mut self, info: I) {
        let elems = info.elems();
        assert_eq!(elems.len(), self.ndim());
        for (i, e) in elems.iter().enumerate() {
            match *e {
                SliceInfoElem::Slice(s) => self.slice_axis_inplace(Axis(i), s),
                SliceInfoElem::Index(ix) => {
                    let n = self.len_of(Axis(i)) as isize;
                    let ix = if ix < 0 { ix + n } else { ix };
                    assert!(ix >= 0 && ix < n, "slice index out of bounds");
                    self.slice_axis_inplace(Axis(i), Slice::new(ix, Some(ix + 1), 1));
                }
            }
        }
    }
    pub fn slice_mut<I: AsSliceInfo<D>>(&mut self, info: I) -> ArrayViewMut<'_, S::Elem, I::Out>
    where
        S: DataMut,
    {
        self.view_mut().slice_move(info)
    }
    pub fn slice_axis(&self, axis: Axis, s: Slice) -> ArrayView<'_, S::Elem, D> {
        let mut v = self.view();
        v.slice_axis_inplace(axis, s);
        v
    }
    pub fn slice_axis_mut(&mut self, axis: Axis, s: Slice) -> ArrayViewMut<'_, S::Elem, D>
    where
        S: DataMut,
    {
        let mut v = self.view_mut();
        v.slice_axis_inplace(axis, s);
        v
    }
    pub fn index_axis(&self, axis: Axis, i: usize) -> ArrayView<'_, S::Elem, D::Smaller>
    where
        D: RemoveAxis,
    {
        self.view().index_axis_move(axis, i)
    }
    pub fn index_axis_mut(&mut self, axis: Axis, i: usize) -> ArrayViewMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
        D: RemoveAxis,
    {
        self.view_mut().index_axis_move(axis, i)
    }
    pub fn subview(&self, axis: Axis, i: usize) -> ArrayView<'_, S::Elem, D::Smaller>
    where
        D: RemoveAxis,
    {
        self.index_axis(axis, i)
    }
    pub fn subview_mut(&mut self, axis: Axis, i: usize) -> ArrayViewMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
        D: RemoveAxis,
    {
        self.index_axis_mut(axis, i)
    }
    pub fn select(&self, axis: Axis, indices: &[usize]) -> Array<S::Elem, D>
    where
        S::Elem: Clone,
        D: RemoveAxis,
    {
        let mut dim = self.dim.clone();
        dim[axis.0] = indices.len();
        let mut v = vec![];
        let mut idx = D::zeros(dim.ndim());
        for _ in 0..dim.size() {
            let mut src = idx.clone();
            src[axis.0] = indices[idx.slice()[axis.0]];
            v.push(self.get(src).unwrap().clone());
            advance(dim.slice(), idx.slice_mut());
        }
        Array::from_parts(v, dim, false)
    }
    pub fn t(&self) -> ArrayView<'_, S::Elem, D> {
        self.view().reversed_axes()
    }
    pub fn lanes(&self, axis: Axis) -> Lanes<'_, S::Elem, D::Smaller> {
        Lanes {
            ptr: self.ptr,
            dim: self.dim.without(axis),
            strides: self.strides.without(axis),
            len: self.len_of(axis),
            stride: self.strides.slice()[axis.0],
            p: PhantomData,
        }
    }
    pub fn lanes_mut(&mut self, axis: Axis) -> LanesMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
    {
        LanesMut {
            ptr: self.ptr,
            dim: self.dim.without(axis),
            strides: self.strides.without(axis),
            len: self.len_of(axis),
            stride: self.strides.slice()[axis.0],
            p: PhantomData,
        }
    }
    pub fn genrows(&self) -> Lanes<'_, S::Elem, D::Smaller> {
        self.lanes(Axis(self.ndim() - 1))
    }
    pub fn rows(&self) -> Lanes<'_, S::Elem, D::Smaller> {
        self.genrows()
    }
    pub fn genrows_mut(&mut self) -> LanesMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
    {
        let ax = Axis(self.ndim() - 1);
        self.lanes_mut(ax)
    }
    pub fn rows_mut(&mut self) -> LanesMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
    {
        self.genrows_mut()
    }
    pub fn gencolumns(&self) -> Lanes<'_, S::Elem, D::Smaller> {
        self.lanes(Axis(0))
    }
    pub fn columns(&self) -> Lanes<'_, S::Elem, D::Smaller> {
        self.lanes(Axis(0))
    }
    pub fn gencolumns_mut(&mut self) -> LanesMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
    {
        self.lanes_mut(Axis(0))
    }
    pub fn columns_mut(&mut self) -> LanesMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
    {
        self.lanes_mut(Axis(0))
    }
    pub fn axis_iter(&self, axis: Axis) -> AxisIter<'_, S::Elem, D::Smaller>
    where
        D: RemoveAxis,
    {
        unsafe {
            AxisIter::make(
                self.ptr,
                self.stride_of(axis),
                self.len_of(axis),
                self.dim.without(axis),
                self.strides.without(axis),
            )
        }
    }
    pub fn axis_iter_mut(&mut self, axis: Axis) -> AxisIterMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
        D: RemoveAxis,
    {
        unsafe {
            AxisIterMut::make(
                self.ptr,
                self.stride_of(axis),
                self.len_of(axis),
                self.dim.without(axis),
                self.strides.without(axis),
            )
        }
    }
    pub fn outer_iter(&self) -> AxisIter<'_, S::Elem, D::Smaller>
    where
        D: RemoveAxis,
    {
        self.axis_iter(Axis(0))
    }
    pub fn outer_iter_mut(&mut self) -> AxisIterMut<'_, S::Elem, D::Smaller>
    where
        S: DataMut,
        D: RemoveAxis,
    {
        self.axis_iter_mut(Axis(0))
    }
    pub fn diag(&self) -> ArrayView1<'_, S::Elem> {
        let n = self.shape().iter().cloned().min().unwrap_or(1);
        let st: isize = self.strides().iter().sum();
        ArrayBase { data: ViewRepr { life: PhantomData }, ptr: self.ptr, dim: Ix1(n), strides: Ix1(st as usize) }
    }
    pub fn diag_mut(&mut self) -> ArrayViewMut1<'_, S::Elem>
    where
        S: DataMut,
    {
        let n = self.shape().iter().cloned().min().unwrap_or(1);
        let st: isize = self.strides().iter().sum();
        ArrayBase { data: ViewRepr { life: PhantomData }, ptr: self.ptr, dim: Ix1(n), strides: Ix1(st as usize) }
    }
    pub fn as_slice(&self) -> Option<&[S::Elem]> {
        if self.is_standard_layout() {
            Some(unsafe { std::slice::from_raw_parts(self.ptr.as_ptr(), self.len()) })
        } else {
            None
        }
    }
    pub fn as_slice_mut(&mut self) -> Option<&mut [S::Elem]>
    where
        S: DataMut,
    {
        if self.is_standard_layout() {
            Some(unsafe { std::slice::from_raw_parts_mut(self.ptr.as_ptr(), self.len()) })
        } else {
            None
        }
    }
    pub fn as_mut_ptr(&mut self) -> *mut S::Elem
    where
        S: DataMut,
    {
        self.ptr.as_ptr()
    }
    pub fn into_shape<E: IntoDimension>(self, shape: E) -> Result<ArrayBase<S, E::Dim>, ShapeError> {
        let dim = shape.into_dimension();
        if dim.size() != self.len() || !self.is_standard_layout() {
            return Err(ShapeError::shape());
        }
        let strides = dim.c_strides();
        Ok(ArrayBase { data: self.data, ptr: self.ptr, dim, strides })
    }
    pub fn broadcast<E: IntoDimension>(&self, shape: E) -> Option<ArrayView<'_, S::Elem, E::Dim>> {
        let dim = shape.into_dimension();
        let (n, m) = (dim.ndim(), self.ndim());
        if m > n {
            return None;
        }
        let mut strides = E::Dim::zeros(n);
        for i in 0..n {
            if i + m >= n {
                let j = i + m - n;
                if self.shape()[j] == dim.slice()[i] {
                    strides[i] = self.strides.slice()[j];
                } else if self.shape()[j] == 1 {
                    strides[i] = 0;
                } else {
                    return None;
                }
            }
        }
        Some(ArrayBase { data: ViewRepr { life: PhantomData }, ptr: self.ptr, dim, strides })
    }

    pub fn fill(&mut self, x: S::Elem)
    where
        S: DataMut,
        S::Elem: Clone,
    {
        for e in self.iter_mut() {
            *e = x.clone();
        }
    }
    pub(crate) fn zip_with<S2: Data, E: Dimension>(&mut self, rhs: &ArrayBase<S2, E>, mut f: impl FnMut(&mut S::Elem, &S2::Elem))
    where
        S: DataMut,
    {
        let r = rhs.broadcast(self.raw_dim()).unwrap_or_else(|| {
            panic!("ndarray: could not broadcast array from shape: {:?} to: {:?}", rhs.shape(), self.shape())
        });
        for (a, b) in self.iter_mut().zip(r.iter()) {
            f(a, b)
        }
    }
    pub fn zip_mut_with<B, S2: Data<Elem = B>, E: Dimension, F: FnMut(&mut S::Elem, &B)>(&mut self, rhs: &ArrayBase<S2, E>, f: F)
    where
        S: DataMut,
    {
        self.zip_with(rhs, f)
    }
    pub fn assign<S2: Data<Elem = S::Elem>, E: Dimension>(&mut self, rhs: &ArrayBase<S2, E>)
    where
        S: DataMut,
        S::Elem: Clone,
    {
        self.zip_with(rhs, |a, b| *a = b.clone())
    }
    pub fn assign_to<P>(&self, to: P)
    where
        S::Elem: Clone,
        P: IntoNdProducer<Dim = D>,
        P::Item: AssignElem<S::Elem>,
    {
        let mut p = to.into_producer();
        assert!(p.raw_dim() == self.dim);
        for (i, x) in self.index_vec_iter() {
            unsafe { p.get(i.slice()) }.assign_elem(x.clone());
        }
    }
    pub fn scaled_add<S2: Data<Elem = S::Elem>, E: Dimension>(&mut self, alpha: S::Elem, rhs: &ArrayBase<S2, E>)
    where
        S: DataMut,
        S::Elem: LinalgScalar,
    {
        self.zip_with(rhs, |a, b| *a = *a + alpha * *b)
    }
    pub fn map<'a, B, F: FnMut(&'a S::Elem) -> B>(&'a self, f: F) -> Array<B, D> {
        Array::from_parts(self.iter().map(f).collect(), self.dim.clone(), false)
    }
    pub fn mapv<B, F: FnMut(S::Elem) -> B>(&self, mut f: F) -> Array<B, D>
    where
        S::Elem: Clone,
    {
        self.map(|x| f(x.clone()))
    }
    pub fn mapv_into<F: FnMut(S::Elem) -> S::Elem>(mut self, f: F) -> Self
    where
        S: DataMut,
        S::Elem: Clone,
    {
        self.mapv_inplace(f);
        self
    }
    pub fn map_inplace<F: FnMut(&mut S::Elem)>(&mut self, f: F)
    where
        S: DataMut,
    {
        self.iter_mut().for_each(f)
    }
    pub fn mapv_inplace<F: FnMut(S::Elem) -> S::Elem>(&mut self, mut f: F)
    where
        S: DataMut,
        S::Elem: Clone,
    {
        self.iter_mut().for_each(|x| *x = f(x.clone()))
    }
    pub fn map_mut<'a, B, F: FnMut(&'a mut S::Elem) -> B>(&'a mut self, f: F) -> Array<B, D>
    where
        S: DataMut,
    {
        let dim = self.dim.clone();
        Array::from_parts(self.iter_mut().map(f).collect(), dim, false)
    }
    pub fn visit<'a, F: FnMut(&'a S::Elem)>(&'a self, f: F) {
        self.iter().for_each(f)
    }
    pub fn for_each<'a, F: FnMut(&'a S::Elem)>(&'a self, f: F) {
        self.iter().for_each(f)
    }
    pub fn fold<'a, B, F: FnMut(B, &'a S::Elem) -> B>(&'a self, init: B, f: F) -> B {
        self.iter().fold(init, f)
    }
    pub fn map_axis<'a, B, F: FnMut(ArrayView1<'a, S::Elem>) -> B>(&'a self, axis: Axis, f: F) -> Array<B, D::Smaller>
    where
        D: RemoveAxis,
    {
        let dim = self.dim.without(axis);
        Array::from_parts(self.lanes(axis).into_iter().map(f).collect(), dim, false)
    }
    pub fn fold_axis<B: Clone, F: FnMut(&B, &S::Elem) -> B>(&self, axis: Axis, init: B, mut f: F) -> Array<B, D::Smaller>
    where
        D: RemoveAxis,
    {
        self.map_axis(axis, |l| l.iter().fold(init.clone(), |a, x| f(&a, x)))
    }
    pub fn sum(&self) -> S::Elem
    where
        S::Elem: Clone + Add<Output = S::Elem> + Zero,
    {
        self.iter().fold(S::Elem::zero(), |a, x| a + x.clone())
    }
    pub fn scalar_sum(&self) -> S::Elem
    where
        S::Elem: Clone + Add<Output = S::Elem> + Zero,
    {
        self.sum()
    }
    pub fn product(&self) -> S::Elem
    where
        S::Elem: Clone + Mul<Output = S::Elem> + One,
    {
        self.iter().fold(S::Elem::one(), |a, x| a * x.clone())
    }
    pub fn mean(&self) -> Option<S::Elem>
    where
        S::Elem: Clone + FromPrimitive + Add<Output = S::Elem> + Div<Output = S::Elem> + Zero,
    {
        if self.is_empty() {
            return None;
        }
        Some(self.sum() / S::Elem::from_usize(self.len()).unwrap())
    }
    pub fn sum_axis(&self, axis: Axis) -> Array<S::Elem, D::Smaller>
    where
        S::Elem: Clone + Zero + Add<Output = S::Elem>,
        D: RemoveAxis,
    {
        let mut r = Array::zeros(self.dim.without(axis));
        for sub in self.axis_iter(axis) {
            r.zip_with(&sub, |a: &mut S::Elem, b: &S::Elem| *a = a.clone() + b.clone());
        }
        r
    }
    pub fn mean_axis(&self, axis: Axis) -> Option<Array<S::Elem, D::Smaller>>
    where
        S::Elem: Clone + Zero + FromPrimitive + Add<Output = S::Elem> + Div<Output = S::Elem>,
        D: RemoveAxis,
    {
        let n = self.len_of(axis);
        if n == 0 {
            return None;
        }
        let d = S::Elem::from_usize(n).unwrap();
        Some(self.sum_axis(axis).mapv(|x| x / d.clone()))
    }
    pub fn all_close<S2: Data<Elem = S::Elem>, E: Dimension>(&self, rhs: &ArrayBase<S2, E>, tol: S::Elem) -> bool
    where
        S::Elem: num_traits::Float,
    {
        use num_traits::Float;
        let r = rhs.broadcast(self.raw_dim()).expect("broadcast");
        self.iter().zip(r.iter()).all(|(a, b)| (*a - *b).abs() <= tol)
    }
    pub fn accumulate_axis_inplace<F: FnMut(&S::Elem, &mut S::Elem)>(&mut self, axis: Axis, mut f: F)
    where
        S: DataMut,
        D: RemoveAxis,
    {
        for mut l in self.lanes_mut(axis) {
            for i in 1..l.len() {
                let p: *const S::Elem = &l[i - 1];
                f(unsafe { &*p }, &mut l[i]);
            }
        }
    }
}
/// Assignment through a producer item.
pub trait AssignElem<T> {
    fn assign_elem(self, x: T);
}
impl<'a, T> AssignElem<T> for &'a mut T {
    fn assign_elem(self, x: T) {
        *self = x;
    }
}

impl<S: Data> ArrayBase<S, Ix1> {
    pub fn to_vec(&self) -> Vec<S::Elem>
    where
        S::Elem: Clone,
    {
        self.iter().cloned().collect()
    }
}
impl<S: Data> ArrayBase<S, Ix2> {
    pub fn row(&self, i: usize) -> ArrayView1<'_, S::Elem> {
        self.index_axis(Axis(0), i)
    }
    pub fn row_mut(&mut self, i: usize) -> ArrayViewMut1<'_, S::Elem>
    where
        S: DataMut,
    {
        self.index_axis_mut(Axis(0), i)
    }
    pub fn column(&self, i: usize) -> ArrayView1<'_, S::Elem> {
        self.index_axis(Axis(1), i)
    }
    pub fn column_mut(&mut self, i: usize) -> ArrayViewMut1<'_, S::Elem>
    where
        S: DataMut,
    {
        self.index_axis_mut(Axis(1), i)
    }
    pub fn nrows(&self) -> usize {
        self.shape()[0]
    }
    pub fn ncols(&self) -> usize {
        self.shape()[1]
    }
    pub fn rows_count(&self) -> usize {
        self.shape()[0]
    }
    pub fn cols(&self) -> usize {
        self.shape()[1]
    }
    pub fn is_square(&self) -> bool {
        self.nrows() == self.ncols()
    }
}
impl<A, D: Dimension> Array<A, D> {
    pub fn into_raw_vec(self) -> Vec<A> {
        self.data.into_vec()
    }
}
impl<'a, A, D: Dimension> ArrayViewMut<'a, A, D> {
    pub fn reborrow(&mut self) -> ArrayViewMut<'_, A, D> {
        self.view_mut()
    }
    pub fn into_slice(self) -> Option<&'a mut [A]> {
        if self.is_standard_layout() {
            Some(unsafe { std::slice::from_raw_parts_mut(self.ptr.as_ptr(), self.len()) })
        } else {
            None
        }
    }
}
impl<'a, A, D: Dimension> ArrayView<'a, A, D> {
    pub fn reborrow(&self) -> ArrayView<'_, A, D> {
        self.view()
    }
    pub fn to_slice(&self) -> Option<&'a [A]> {
        if self.is_standard_layout() {
            Some(unsafe { std::slice::from_raw_parts(self.ptr.as_ptr(), self.len()) })
        } else {
            None
        }
    }
}
impl<A, S: DataOwned<Elem = A> + DataMut, D: Dimension> std::iter::Extend<A> for ArrayBase<S, D> {
    fn extend<I: IntoIterator<Item = A>>(&mut self, _it: I) {
        unimplemented!("extend")
    }
}
#[allow(dead_code)]
fn _assert_ops<A: AddAssign>() {}

impl<'a, A, D: Dimension> ArrayBase<ViewRepr<&'a A>, D> {
    pub fn split_at(self, axis: Axis, i: usize) -> (Self, Self) {
        assert!(i <= self.len_of(axis));
        let mut a = self.clone();
        let mut b = self;
        a.slice_axis_inplace(axis, Slice::new(0, Some(i as isize), 1));
        b.slice_axis_inplace(axis, Slice::new(i as isize, None, 1));
        (a, b)
    }
}
impl<'a, A, D: Dimension> ArrayBase<ViewRepr<&'a mut A>, D> {
    pub fn split_at(self, axis: Axis, i: usize) -> (Self, Self) {
        assert!(i <= self.len_of(axis));
        // the halves are disjoint
        let mut a = ArrayBase { data: ViewRepr { life: std::marker::PhantomData }, ptr: self.ptr, dim: self.dim.clone(), strides: self.strides.clone() };
        let mut b = self;
        a.slice_axis_inplace(axis, Slice::new(0, Some(i as isize), 1));
        b.slice_axis_inplace(axis, Slice::new(i as isize, None, 1));
        (a, b)
    }
}
impl<S: Data, D: Dimension> ArrayBase<S, D> {
    pub fn as_slice_memory_order(&self) -> Option<&[S::Elem]> {
        if self.is_standard_layout() {
            return self.as_slice();
        }
        if self.strides.slice() == self.dim.f_strides().slice() {
            return Some(unsafe { std::slice::from_raw_parts(self.ptr.as_ptr(), self.len()) });
        }
        None
    }
}

impl<S: Data> ArrayBase<S, Ix1> {
    /// Overlapping pieces of one length.
    pub fn windows(&self, size: usize) -> std::vec::IntoIter<ArrayView1<'_, S::Elem>> {
        assert!(size > 0);
        let k = (self.len() + 1).saturating_sub(size) as isize;
        (0..k).map(|i| self.slice_axis(Axis(0), Slice::new(i, Some(i + size as isize), 1))).collect::<Vec<_>>().into_iter()
    }
    /// Pieces of exactly one length; what is left over is not visited.
    pub fn exact_chunks(&self, size: usize) -> std::vec::IntoIter<ArrayView1<'_, S::Elem>> {
        assert!(size > 0);
        let k = (self.len() / size * size) as isize;
        let v: Vec<_> = (0..k).step_by(size).map(|i| self.slice_axis(Axis(0), Slice::new(i, Some(i + size as isize), 1))).collect();
        v.into_iter()
    }
    pub fn nrows(&self) -> usize {
        self.len()
    }
}

/// Tuples of slices for `multi_slice_mut`.
pub trait MultiSlice<'a, A, D: Dimension> {
    type Out;
    fn split(self, v: ArrayViewMut<'a, A, D>) -> Self::Out;
}
macro_rules! multi {
    ($($p:ident $x:ident),*) => {
        #[allow(non_snake_case)]
        impl<'a, A: 'a, D: Dimension, $($p: AsSliceInfo<D>),*> MultiSlice<'a, A, D> for ($($p,)*) {
            type Out = ($(ArrayViewMut<'a, A, $p::Out>,)*);
            fn split(self, v: ArrayViewMut<'a, A, D>) -> Self::Out {
                let ($($p,)*) = self;
                let mut seen = std::collections::HashSet::new();
                $(
                    let mut $x = ArrayBase { data: ViewRepr { life: std::marker::PhantomData }, ptr: v.ptr, dim: v.dim.clone(), strides: v.strides.clone() }.slice_move($p);
                    for q in $x.iter_mut() {
                        assert!(seen.insert(q as *mut A as usize), "slices overlap");
                    }
                )*
                ($($x,)*)
            }
        }
    };
}
multi!(I1 a, I2 b);
multi!(I1 a, I2 b, I3 c);
multi!(I1 a, I2 b, I3 c, I4 d);
impl<S: DataMut, D: Dimension> ArrayBase<S, D> {
    pub fn multi_slice_mut<'a, M: MultiSlice<'a, S::Elem, D>>(&'a mut self, m: M) -> M::Out {
        m.split(self.view_mut())
    }
}
