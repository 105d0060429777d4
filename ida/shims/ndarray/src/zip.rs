//! Lock-step traversal.
use crate::*;

/// Result of a fold that may stop early.
#[derive(Debug, Copy, Clone)]
pub enum FoldWhile<T> {
    Continue(T),
    Done(T),
}
impl<T> FoldWhile<T> {
    pub fn into_inner(self) -> T {
        match self {
            FoldWhile::Continue(x) | FoldWhile::Done(x) => x,
        }
    }
    pub fn is_done(&self) -> bool {
        matches!(self, FoldWhile::Done(_))
    }
}

pub trait NdProducer {
    type Item;
    type Dim: Dimension;
    fn raw_dim(&self) -> Self::Dim;
    #[doc(hidden)]
    unsafe fn get(&mut self, i: &[usize]) -> Self::Item;
}
pub trait IntoNdProducer {
    type Item;
    type Dim: Dimension;
    type Output: NdProducer<Dim = Self::Dim, Item = Self::Item>;
    fn into_producer(self) -> Self::Output;
}
impl<'a, A, D: Dimension> NdProducer for ArrayView<'a, A, D> {
    type Item = &'a A;
    type Dim = D;
    fn raw_dim(&self) -> D {
        self.dim.clone()
    }
    unsafe fn get(&mut self, i: &[usize]) -> &'a A {
        &*self.ptr.as_ptr().offset(offset(i, self.strides.slice()))
    }
}
impl<'a, A, D: Dimension> NdProducer for ArrayViewMut<'a, A, D> {
    type Item = &'a mut A;
    type Dim = D;
    fn raw_dim(&self) -> D {
        self.dim.clone()
    }
    unsafe fn get(&mut self, i: &[usize]) -> &'a mut A {
        &mut *self.ptr.as_ptr().offset(offset(i, self.strides.slice()))
    }
}
impl<'a, A, D: Dimension> IntoNdProducer for ArrayView<'a, A, D> {
    type Item = &'a A;
    type Dim = D;
    type Output = Self;
    fn into_producer(self) -> Self {
        self
    }
}
impl<'a, A, D: Dimension> IntoNdProducer for ArrayViewMut<'a, A, D> {
    type Item = &'a mut A;
    type Dim = D;
    type Output = Self;
    fn into_producer(self) -> Self {
        self
    }
}
impl<'a, S: Data, D: Dimension> IntoNdProducer for &'a ArrayBase<S, D> {
    type Item = &'a S::Elem;
    type Dim = D;
    type Output = ArrayView<'a, S::Elem, D>;
    fn into_producer(self) -> Self::Output {
        self.view()
    }
}
impl<'a, S: DataMut, D: Dimension> IntoNdProducer for &'a mut ArrayBase<S, D> {
    type Item = &'a mut S::Elem;
    type Dim = D;
    type Output = ArrayViewMut<'a, S::Elem, D>;
    fn into_producer(self) -> Self::Output {
        self.view_mut()
    }
}
impl<'a, A> IntoNdProducer for &'a [A] {
    type Item = &'a A;
    type Dim = Ix1;
    type Output = ArrayView1<'a, A>;
    fn into_producer(self) -> Self::Output {
        self.into()
    }
}
impl<'a, A> IntoNdProducer for &'a mut [A] {
    type Item = &'a mut A;
    type Dim = Ix1;
    type Output = ArrayViewMut1<'a, A>;
    fn into_producer(self) -> Self::Output {
        self.into()
    }
}
impl<'a, A> IntoNdProducer for &'a Vec<A> {
    type Item = &'a A;
    type Dim = Ix1;
    type Output = ArrayView1<'a, A>;
    fn into_producer(self) -> Self::Output {
        self.into()
    }
}
impl<'a, A> IntoNdProducer for &'a mut Vec<A> {
    type Item = &'a mut A;
    type Dim = Ix1;
    type Output = ArrayViewMut1<'a, A>;
    fn into_producer(self) -> Self::Output {
        self.into()
    }
}

/// Produces the index of each element.
pub struct Indices<D>(D);
impl<D: Dimension> NdProducer for Indices<D> {
    type Item = D::Pattern;
    type Dim = D;
    fn raw_dim(&self) -> D {
        self.0.clone()
    }
    unsafe fn get(&mut self, i: &[usize]) -> D::Pattern {
        D::from_slice(i).unwrap().into_pattern()
    }
}

pub struct Zip<Parts, D> {
    parts: Parts,
    dim: D,
}
impl<P: NdProducer<Dim = D>, D: Dimension> Zip<(P,), D> {
    pub fn from<IP: IntoNdProducer<Dim = D, Output = P, Item = P::Item>>(p: IP) -> Self {
        let p = p.into_producer();
        let dim = p.raw_dim();
        Zip { parts: (p,), dim }
    }
}
impl<P: NdProducer<Dim = D>, D: Dimension> Zip<(Indices<D>, P), D> {
    pub fn indexed<IP: IntoNdProducer<Dim = D, Output = P, Item = P::Item>>(p: IP) -> Self {
        let p = p.into_producer();
        let dim = p.raw_dim();
        Zip { parts: (Indices(dim.clone()), p), dim }
    }
}
fn each<D: Dimension>(dim: &D, mut f: impl FnMut(&[usize]) -> bool) {
    if dim.size() == 0 {
        return;
    }
    let mut idx = D::zeros(dim.ndim());
    loop {
        if !f(idx.slice()) {
            return;
        }
        if !advance(dim.slice(), idx.slice_mut()) {
            return;
        }
    }
}
macro_rules! zips {
    ($(($($p:ident $i:tt),*) [$($more:tt)*];)*) => { $(
        #[allow(non_snake_case)]
        impl<D: Dimension, $($p: NdProducer<Dim = D>),*> Zip<($($p,)*), D> {
            pub fn for_each<F: FnMut($($p::Item),*)>(mut self, mut f: F) {
                let dim = self.dim.clone();
                each(&dim, |ix| { f($(unsafe { self.parts.$i.get(ix) }),*); true });
            }
            pub fn apply<F: FnMut($($p::Item),*)>(self, f: F) {
                self.for_each(f)
            }
            pub fn fold<Acc, F: FnMut(Acc, $($p::Item),*) -> Acc>(mut self, acc: Acc, mut f: F) -> Acc {
                let dim = self.dim.clone();
                let mut a = Some(acc);
                each(&dim, |ix| { a = Some(f(a.take().unwrap(), $(unsafe { self.parts.$i.get(ix) }),*)); true });
                a.unwrap()
            }
            pub fn fold_while<Acc, F: FnMut(Acc, $($p::Item),*) -> FoldWhile<Acc>>(mut self, acc: Acc, mut f: F) -> FoldWhile<Acc> {
                let dim = self.dim.clone();
                let mut a = Some(FoldWhile::Continue(acc));
                each(&dim, |ix| {
                    let r = f(a.take().unwrap().into_inner(), $(unsafe { self.parts.$i.get(ix) }),*);
                    let go = !r.is_done();
                    a = Some(r);
                    go
                });
                a.unwrap()
            }
            pub fn all<F: FnMut($($p::Item),*) -> bool>(mut self, mut f: F) -> bool {
                let dim = self.dim.clone();
                let mut r = true;
                each(&dim, |ix| { r = f($(unsafe { self.parts.$i.get(ix) }),*); r });
                r
            }
            pub fn any<F: FnMut($($p::Item),*) -> bool>(mut self, mut f: F) -> bool {
                let dim = self.dim.clone();
                let mut r = false;
                each(&dim, |ix| { r = f($(unsafe { self.parts.$i.get(ix) }),*); !r });
                r
            }
            pub fn map_collect<R, F: FnMut($($p::Item),*) -> R>(mut self, mut f: F) -> Array<R, D> {
                let dim = self.dim.clone();
                let mut v = Vec::with_capacity(dim.size());
                each(&dim, |ix| { v.push(f($(unsafe { self.parts.$i.get(ix) }),*)); true });
                Array::from_shape_vec(dim, v).unwrap()
            }
            pub fn apply_collect<R, F: FnMut($($p::Item),*) -> R>(self, f: F) -> Array<R, D> {
                self.map_collect(f)
            }
            pub fn size(&self) -> usize {
                self.dim.size()
            }
            zips!(@more ($($p $i),*) $($more)*);
        }
    )* };
    (@more ($($p:ident $i:tt),*)) => {};
    (@more ($($p:ident $i:tt),*) and) => {
        /// Add another producer of the same shape.
        pub fn and<IQ: IntoNdProducer<Dim = D>>(self, q: IQ) -> Zip<($($p,)* IQ::Output,), D> {
            let q = q.into_producer();
            assert!(q.raw_dim() == self.dim, "Zip: shape mismatch: {:?} and {:?}", q.raw_dim(), self.dim);
            Zip { parts: ($(self.parts.$i,)* q,), dim: self.dim }
        }
        /// Add an array, broadcasting it if needed.
        pub fn and_broadcast<'a, A: 'a, S: Data<Elem = A>, E: Dimension>(self, q: &'a ArrayBase<S, E>) -> Zip<($($p,)* ArrayView<'a, A, D>,), D> {
            let q = q.broadcast(self.dim.clone()).expect("broadcast");
            Zip { parts: ($(self.parts.$i,)* q,), dim: self.dim }
        }
    };
}
zips! {
    (P0 0) [and];
    (P0 0, P1 1) [and];
    (P0 0, P1 1, P2 2) [and];
    (P0 0, P1 1, P2 2, P3 3) [and];
    (P0 0, P1 1, P2 2, P3 3, P4 4) [and];
    (P0 0, P1 1, P2 2, P3 3, P4 4, P5 5) [and];
    (P0 0, P1 1, P2 2, P3 3, P4 4, P5 5, P6 6) [];
}
