//! Formatting.
use crate::*;
use std::fmt;

fn rec<A, D: Dimension>(
    a: &ArrayView<'_, A, D>,
    idx: &mut Vec<usize>,
    f: &mut fmt::Formatter<'_>,
    g: &dyn Fn(&A, &mut fmt::Formatter<'_>) -> fmt::Result,
) -> fmt::Result {
    let ax = idx.len();
    if ax == a.ndim() {
        let o = offset(idx, a.strides.slice());
        return g(unsafe { &*a.ptr.as_ptr().offset(o) }, f);
    }
    write!(f, "[")?;
    for i in 0..a.shape()[ax] {
        if i > 0 {
            if ax + 1 == a.ndim() {
                write!(f, ", ")?;
            } else {
                write!(f, ",\n{}", " ".repeat(ax + 1))?;
            }
        }
        idx.push(i);
        rec(a, idx, f, g)?;
        idx.pop();
    }
    write!(f, "]")
}
macro_rules! fmts {
    ($($t:ident),*) => { $(
        impl<A: fmt::$t, S: Data<Elem = A>, D: Dimension> fmt::$t for ArrayBase<S, D> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                rec(&self.view(), &mut vec![], f, &|x, f| <A as fmt::$t>::fmt(x, f))
            }
        }
    )* };
}
fmts!(Display, LowerExp, UpperExp, LowerHex);
impl<A: fmt::Debug, S: Data<Elem = A>, D: Dimension> fmt::Debug for ArrayBase<S, D> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        rec(&self.view(), &mut vec![], f, &|x, f| <A as fmt::Debug>::fmt(x, f))?;
        write!(f, ", shape={:?}, strides={:?}", self.shape(), self.strides())
    }
}
