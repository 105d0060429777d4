//! Arithmetic, indexing, comparison, cloning.
use crate::*;
use std::ops::*;

pub trait ScalarOperand: 'static + Clone {}
macro_rules! so {
    ($($t:ty),*) => { $( impl ScalarOperand for $t {} )* };
}
so!(f32, f64, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, bool);

macro_rules! binop {
    ($Tr:ident, $f:ident, $TrA:ident, $fa:ident) => {
        impl<'a, 'b, A, B, S, S2, D, E> $Tr<&'a ArrayBase<S2, E>> for &'b ArrayBase<S, D>
        where
            A: Clone + $Tr<B, Output = A>,
            B: Clone,
            S: Data<Elem = A>,
            S2: Data<Elem = B>,
            D: Dimension,
            E: Dimension,
        {
            type Output = Array<A, D>;
            fn $f(self, rhs: &'a ArrayBase<S2, E>) -> Array<A, D> {
                let mut r = self.to_owned();
                r.zip_with(rhs, |a, b| *a = a.clone().$f(b.clone()));
                r
            }
        }
        impl<'b, A, B, S, S2, D, E> $Tr<ArrayBase<S2, E>> for &'b ArrayBase<S, D>
        where
            A: Clone + $Tr<B, Output = A>,
            B: Clone,
            S: Data<Elem = A>,
            S2: DataOwned<Elem = B> + DataMut,
            D: Dimension,
            E: Dimension,
        {
            type Output = Array<A, D>;
            fn $f(self, rhs: ArrayBase<S2, E>) -> Array<A, D> {
                $Tr::$f(self, &rhs)
            }
        }
        impl<'a, A, B, S, S2, D, E> $Tr<&'a ArrayBase<S2, E>> for ArrayBase<S, D>
        where
            A: Clone + $Tr<B, Output = A>,
            B: Clone,
            S: DataOwned<Elem = A> + DataMut,
            S2: Data<Elem = B>,
            D: Dimension,
            E: Dimension,
        {
            type Output = ArrayBase<S, D>;
            fn $f(mut self, rhs: &'a ArrayBase<S2, E>) -> ArrayBase<S, D> {
                self.zip_with(rhs, |a, b| *a = a.clone().$f(b.clone()));
                self
            }
        }
        impl<A, B, S, S2, D, E> $Tr<ArrayBase<S2, E>> for ArrayBase<S, D>
        where
            A: Clone + $Tr<B, Output = A>,
            B: Clone,
            S: DataOwned<Elem = A> + DataMut,
            S2: Data<Elem = B>,
            D: Dimension,
            E: Dimension,
        {
            type Output = ArrayBase<S, D>;
            fn $f(self, rhs: ArrayBase<S2, E>) -> ArrayBase<S, D> {
                $Tr::$f(self, &rhs)
            }
        }
        impl<A, S, D, B> $Tr<B> for ArrayBase<S, D>
        where
            A: Clone + $Tr<B, Output = A>,
            S: DataOwned<Elem = A> + DataMut,
            D: Dimension,
            B: ScalarOperand,
        {
            type Output = ArrayBase<S, D>;
            fn $f(mut self, x: B) -> ArrayBase<S, D> {
                for a in self.iter_mut() {
                    *a = a.clone().$f(x.clone());
                }
                self
            }
        }
        impl<'b, A, S, D, B> $Tr<B> for &'b ArrayBase<S, D>
        where
            A: Clone + $Tr<B, Output = A>,
            S: Data<Elem = A>,
            D: Dimension,
            B: ScalarOperand,
        {
            type Output = Array<A, D>;
            fn $f(self, x: B) -> Array<A, D> {
                self.map(|a| a.clone().$f(x.clone()))
            }
        }
        impl<'a, A, S, S2, D, E> $TrA<&'a ArrayBase<S2, E>> for ArrayBase<S, D>
        where
            A: Clone + $TrA<A>,
            S: DataMut<Elem = A>,
            S2: Data<Elem = A>,
            D: Dimension,
            E: Dimension,
        {
            fn $fa(&mut self, rhs: &'a ArrayBase<S2, E>) {
                self.zip_with(rhs, |a, b| a.$fa(b.clone()));
            }
        }
        impl<A, S, D> $TrA<A> for ArrayBase<S, D>
        where
            A: ScalarOperand + $TrA<A>,
            S: DataMut<Elem = A>,
            D: Dimension,
        {
            fn $fa(&mut self, x: A) {
                for a in self.iter_mut() {
                    a.$fa(x.clone());
                }
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign);
binop!(Sub, sub, SubAssign, sub_assign);
binop!(Mul, mul, MulAssign, mul_assign);
binop!(Div, div, DivAssign, div_assign);
binop!(Rem, rem, RemAssign, rem_assign);

macro_rules! lhs_scalar {
    ($($t:ty),*) => { $(
        lhs_scalar!(@one $t, Add, add);
        lhs_scalar!(@one $t, Sub, sub);
        lhs_scalar!(@one $t, Mul, mul);
        lhs_scalar!(@one $t, Div, div);
    )* };
    (@one $t:ty, $Tr:ident, $f:ident) => {
        impl<S: DataOwned<Elem = $t> + DataMut, D: Dimension> $Tr<ArrayBase<S, D>> for $t {
            type Output = ArrayBase<S, D>;
            fn $f(self, mut rhs: ArrayBase<S, D>) -> ArrayBase<S, D> {
                for a in rhs.iter_mut() { *a = self.$f(*a); }
                rhs
            }
        }
        impl<'a, S: Data<Elem = $t>, D: Dimension> $Tr<&'a ArrayBase<S, D>> for $t {
            type Output = Array<$t, D>;
            fn $f(self, rhs: &'a ArrayBase<S, D>) -> Array<$t, D> {
                rhs.map(|a| self.$f(*a))
            }
        }
    };
}
lhs_scalar!(f32, f64, i32, i64, usize);

impl<A: Clone + Neg<Output = A>, S: DataOwned<Elem = A> + DataMut, D: Dimension> Neg for ArrayBase<S, D> {
    type Output = Self;
    fn neg(mut self) -> Self {
        for a in self.iter_mut() {
            *a = -a.clone();
        }
        self
    }
}
impl<'a, A: Clone + Neg<Output = A>, S: Data<Elem = A>, D: Dimension> Neg for &'a ArrayBase<S, D> {
    type Output = Array<A, D>;
    fn neg(self) -> Array<A, D> {
        self.map(|a| -a.clone())
    }
}
impl<A: Clone + Not<Output = A>, S: Data<Elem = A>, D: Dimension> Not for &ArrayBase<S, D> {
    type Output = Array<A, D>;
    fn not(self) -> Array<A, D> {
        self.map(|a| !a.clone())
    }
}

impl<S: Data, D: Dimension, I: NdIndex<D>> Index<I> for ArrayBase<S, D> {
    type Output = S::Elem;
    fn index(&self, i: I) -> &S::Elem {
        match i.index_checked(&self.dim, &self.strides) {
            Some(o) => unsafe { &*self.ptr.as_ptr().offset(o) },
            None => panic!("ndarray: index {:?} is out of bounds for array of shape {:?}", i, self.shape()),
        }
    }
}
impl<S: DataMut, D: Dimension, I: NdIndex<D>> IndexMut<I> for ArrayBase<S, D> {
    fn index_mut(&mut self, i: I) -> &mut S::Elem {
        match i.index_checked(&self.dim, &self.strides) {
            Some(o) => unsafe { &mut *self.ptr.as_ptr().offset(o) },
            None => panic!("ndarray: index {:?} is out of bounds for array of shape {:?}", i, self.shape()),
        }
    }
}
impl<A: PartialEq<B>, B, S: Data<Elem = A>, S2: Data<Elem = B>, D: Dimension> PartialEq<ArrayBase<S2, D>>
    for ArrayBase<S, D>
{
    fn eq(&self, o: &ArrayBase<S2, D>) -> bool {
        self.shape() == o.shape() && self.iter().zip(o.iter()).all(|(a, b)| a == b)
    }
}
impl<'a, A: PartialEq<B>, B, S: Data<Elem = A>, S2: Data<Elem = B>, D: Dimension> PartialEq<&'a ArrayBase<S2, D>>
    for ArrayBase<S, D>
{
    fn eq(&self, o: &&'a ArrayBase<S2, D>) -> bool {
        *self == **o
    }
}
impl<A: Eq, S: Data<Elem = A>, D: Dimension> Eq for ArrayBase<S, D> {}
impl<S: RawDataClone, D: Clone> Clone for ArrayBase<S, D> {
    fn clone(&self) -> Self {
        unsafe {
            let (data, ptr) = self.data.clone_with_ptr(self.ptr);
            ArrayBase { data, ptr, dim: self.dim.clone(), strides: self.strides.clone() }
        }
    }
}
impl<S: RawDataClone + Copy, D: Copy> Copy for ArrayBase<S, D> {}
impl<S: Data, D: Dimension> std::hash::Hash for ArrayBase<S, D>
where
    S::Elem: std::hash::Hash,
{
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        for x in self.iter() {
            x.hash(h)
        }
    }
}
impl<S: DataOwned + DataMut + Data, D: Dimension> AsRef<ArrayBase<S, D>> for ArrayBase<S, D> {
    fn as_ref(&self) -> &Self {
        self
    }
}
