//! Storage kinds.
use std::marker::PhantomData;
use std::ptr::NonNull;

pub unsafe trait RawData: Sized {
    type Elem;
}
pub unsafe trait RawDataMut: RawData {}
pub unsafe trait Data: RawData {
    #[doc(hidden)]
    fn into_owned_elems<D: crate::Dimension>(a: crate::ArrayBase<Self, D>) -> crate::Array<Self::Elem, D>
    where
        Self::Elem: Clone;
}
pub unsafe trait DataMut: Data + RawDataMut {}
pub unsafe trait RawDataClone: RawData {
    #[doc(hidden)]
    unsafe fn clone_with_ptr(&self, ptr: NonNull<Self::Elem>) -> (Self, NonNull<Self::Elem>);
}
pub trait DataClone: Data + RawDataClone {}
impl<T: Data + RawDataClone> DataClone for T {}
pub unsafe trait DataOwned: Data {
    #[doc(hidden)]
    fn new(v: Vec<Self::Elem>) -> (Self, NonNull<Self::Elem>);
}

/// Owning storage; a disassembled `Vec`.
pub struct OwnedRepr<A> {
    ptr: NonNull<A>,
    len: usize,
    cap: usize,
    p: PhantomData<A>,
}
unsafe impl<A: Send> Send for OwnedRepr<A> {}
unsafe impl<A: Sync> Sync for OwnedRepr<A> {}
impl<A> OwnedRepr<A> {
    pub(crate) fn from_vec(v: Vec<A>) -> Self {
        let mut v = std::mem::ManuallyDrop::new(v);
        OwnedRepr { ptr: NonNull::new(v.as_mut_ptr()).unwrap(), len: v.len(), cap: v.capacity(), p: PhantomData }
    }
    pub(crate) fn as_ptr(&self) -> NonNull<A> {
        self.ptr
    }
    pub(crate) fn as_slice(&self) -> &[A] {
        unsafe { std::slice::from_raw_parts(self.ptr.as_ptr(), self.len) }
    }
    pub(crate) fn into_vec(self) -> Vec<A> {
        let me = std::mem::ManuallyDrop::new(self);
        unsafe { Vec::from_raw_parts(me.ptr.as_ptr(), me.len, me.cap) }
    }
}
impl<A> Drop for OwnedRepr<A> {
    fn drop(&mut self) {
        unsafe { drop(Vec::from_raw_parts(self.ptr.as_ptr(), self.len, self.cap)) }
    }
}
#[derive(Copy, Clone)]
pub struct ViewRepr<L> {
    pub(crate) life: PhantomData<L>,
}

unsafe impl<A> RawData for OwnedRepr<A> {
    type Elem = A;
}
unsafe impl<A> RawDataMut for OwnedRepr<A> {}
unsafe impl<A> Data for OwnedRepr<A> {
    fn into_owned_elems<D: crate::Dimension>(a: crate::ArrayBase<Self, D>) -> crate::Array<A, D> {
        a
    }
}
unsafe impl<A> DataMut for OwnedRepr<A> {}
unsafe impl<A> DataOwned for OwnedRepr<A> {
    fn new(v: Vec<A>) -> (Self, NonNull<A>) {
        let r = OwnedRepr::from_vec(v);
        let p = r.as_ptr();
        (r, p)
    }
}
unsafe impl<A: Clone> RawDataClone for OwnedRepr<A> {
    unsafe fn clone_with_ptr(&self, ptr: NonNull<A>) -> (Self, NonNull<A>) {
        let off = if std::mem::size_of::<A>() == 0 { 0 } else { ptr.as_ptr().offset_from(self.ptr.as_ptr()) };
        let r = OwnedRepr::from_vec(self.as_slice().to_vec());
        let p = NonNull::new_unchecked(r.ptr.as_ptr().offset(off));
        (r, p)
    }
}

unsafe impl<'a, A> RawData for ViewRepr<&'a A> {
    type Elem = A;
}
unsafe impl<'a, A> Data for ViewRepr<&'a A> {
    fn into_owned_elems<D: crate::Dimension>(a: crate::ArrayBase<Self, D>) -> crate::Array<A, D>
    where
        A: Clone,
    {
        a.to_owned()
    }
}
unsafe impl<'a, A> RawDataClone for ViewRepr<&'a A> {
    unsafe fn clone_with_ptr(&self, ptr: NonNull<A>) -> (Self, NonNull<A>) {
        (*self, ptr)
    }
}
unsafe impl<'a, A> RawData for ViewRepr<&'a mut A> {
    type Elem = A;
}
unsafe impl<'a, A> RawDataMut for ViewRepr<&'a mut A> {}
unsafe impl<'a, A> Data for ViewRepr<&'a mut A> {
    fn into_owned_elems<D: crate::Dimension>(a: crate::ArrayBase<Self, D>) -> crate::Array<A, D>
    where
        A: Clone,
    {
        a.to_owned()
    }
}
unsafe impl<'a, A> DataMut for ViewRepr<&'a mut A> {}
